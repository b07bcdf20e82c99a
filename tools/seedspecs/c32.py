exec(open("/tmp/seeds/common.py").read())
id="ts-table-null-decimal"; property="C32"
needs="a table row whose nullable decimal or float is null"
breaks="cells of null decimals show a number"
edits=[("pkg/typescript/ui.go","""			case build.Decimal:
				if empty {
					dst.Code("null == ").Code(name).Code(" ? \\"\\" : ")
				}
				dst.Code(name).Code("!.toFixed(" + strconv.Itoa(digit) + ")")
			default:""","""			case build.Decimal:
				dst.Import("decimal.js", "* as d")
				dst.Code("new d.Decimal(").Code(name).Code(" ?? 0).toFixed(" + strconv.Itoa(digit) + ")")
			default:""")]
files=tsgen({"a.hbuf":'''[ui: table="true"]
data Row {
	[ui: table="text"; digit="2"]
	decimal? rate = 1
	[ui: table="text"; digit="1"]
	decimal full = 2
	[ui: table="text"; digit="2"]
	double? part = 3
}
'''},'''import { Row } from "./out/a.data"
import { RowTableColumn } from "./out/a.ui"
const draw = (row: any) => {
	const cols: any[] = (RowTableColumn as any).setup({})({ $t: (x: string) => x, $slots: {} })
	const out: any = {}
	for (const c of cols) {
		const slots = c.children.find((x: any) => x && typeof x.default === "function")
		out[c.props.prop] = String(slots.default({ row }) ?? "")
	}
	return out
}
const r = Row.fromJson({ rate: null, full: "1.25", part: null })
const a = draw(r)
if (a.rate !== "" || a.part !== "" || !a.full.startsWith("1.")) throw new Error(JSON.stringify(a))
const b = draw(Row.fromJson({ rate: "3", full: "1", part: 0.5 }))
if (b.rate !== "3.00" || b.full !== "1.0" || b.part !== "0.50") throw new Error(JSON.stringify(b))
''')
