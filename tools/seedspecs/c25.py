exec(open("/tmp/seeds/common.py").read())
id="ts-verify-stops-early"; property="C25"
needs="a verification list in which an item without format precedes one with a format"
breaks="the formats after an item without one are not checked"
edits=[("pkg/typescript/verify.go","""			if nil == f {
				continue
			}""","""			if nil == f {
				break
			}""")]
files=tsgen({"a.hbuf":'''enum Code {
	[format: min="3"; max="9"]
	Range = 0
	Other = 1
}

data Thing {
	[verify: format="Code.Other", "Code.Range"]
	int32 x = 1
}
'''},'''import { verifyThing_X } from "./out/a.verify"
const run = (v: any): any => { let e: any = "none"; verifyThing_X({t: (s: string) => s} as any)(null, v, (x: any) => { e = x; }); return e }
if (run(5) !== undefined) throw new Error("refused 5")
if (!(run(12) instanceof Error)) throw new Error("took 12")
''')
