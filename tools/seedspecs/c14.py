exec(open("/tmp/seeds/common.py").read())
id="ts-enum-sign"; property="C14"
needs="a number that is no item's and that differs from an item's in its sign bit or beyond the 32nd"
breaks="TypeScript's valueOf drops the sign bit of the number it looks for, so numbers without an item find one instead of failing"
edits=[("pkg/typescript/enum.go",'''.values[i].value == value) {''','''.values[i].value == (value & 0x7fffffff)) {''')]
files=tsgen({"a.hbuf":'''enum Kind {
	none = 0
	one = 1
	last = 2147483647
}
'''},'''import { Kind } from "./out/a.enum"
for (const k of Kind.values) if (Kind.valueOf(k.value) !== k) throw new Error("lost " + k.name)
for (const n of [-2147483648, -2147483647, -1, 2, 4294967296, 4294967297]) {
	let got: any = null
	try { got = Kind.valueOf(n) } catch (e) { continue }
	throw new Error(n + " gives " + got.name)
}
''')
