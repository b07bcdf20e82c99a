exec(open("/tmp/seeds/common.py").read())
id="server-roots-twice"; property="C27"
needs="a server with two parents that declare the same method while neither of them extends a server"
breaks="a method that two unrelated parents both declare is generated twice"
edits=[("pkg/build/build.go","""		err := call(field, typ)
		if err != nil {
			return err
		}
		fields[field.Name.Name] = struct{}{}
	}

	for _, extend""","""		err := call(field, typ)
		if err != nil {
			return err
		}
		if 0 < len(typ.Extends) {
			fields[field.Name.Name] = struct{}{}
		}
	}

	for _, extend""")]
files=tsgen({"a.hbuf":'''data Req {
	int32 a = 1
}
server Left {
	Req ping(Req req) = 1
	Req left(Req req) = 2
}
server Right {
	Req ping(Req req) = 1
	Req right(Req req) = 3
}
server Both : Left = 1, Right = 2 {
	Req both(Req req) = 4
}
'''},'''import { BothClient, BothRouter } from "./out/a.server"
const c: any = BothClient.prototype
for (const n of ["ping", "left", "right", "both"]) if (typeof c[n] !== "function") throw new Error(n)
const r = new BothRouter({} as any)
if (Object.keys(r.getInvoke()).length !== 4) throw new Error("routes")
''')
