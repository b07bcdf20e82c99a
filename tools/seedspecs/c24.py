exec(open("/tmp/seeds/common.py").read())
id="ts-clone-map-date"; property="C24"
needs="a map whose values are dates; the clone's date is changed in place"
breaks="the values of a map are copied as its keys are, so original and clone share the dates in it"
edits=[("pkg/typescript/data.go","""			b.printCopy(dst, "", "value", t.VType, data, empty, false)
			dst.Code(")))!")""","""			b.printCopy(dst, "", "value", t.VType, data, empty, true)
			dst.Code(")))!")""")]
files=tsgen({"a.hbuf":'''data Thing {
	date<int32> times = 1
}
'''},'''import { Thing } from "./out/a.data"
const t = new Thing()
t.times = {7: new Date(1000)}
const c = t.clone()
if (c.times[7].getTime() !== 1000) throw new Error("not equal")
c.times[7].setTime(5)
if (t.times[7].getTime() !== 1000) throw new Error("shared")
''')
