exec(open("/tmp/seeds/common.py").read())
id="ts-null-list-items"; property="C22"
needs="a nullable list whose items are nullable"
breaks="the declared type of such a member says its items are not null, so the generated class does not type-check"
edits=[("pkg/typescript/typescript.go","""		b.printType(dst, ar.VType, false, false)
		dst.Code(")[]")""","""		b.printType(dst, ar.VType, ar.Empty, false)
		dst.Code(")[]")""")]
files=tsgen({"a.hbuf":'''data Thing {
	int32?[]? list = 1
	int32?[] other = 2
	int32[]? third = 3
}
'''},'''import { Thing } from "./out/a.data"
const t = new Thing()
t.list = [1, null]
const back = Thing.fromJson(t.toJson())
if (back.list == null || back.list.length != 2 || back.list[1] !== null) throw new Error("lost")
''')
