exec(open("/tmp/seeds/common.py").read())
id="ts-decimal-number"; property="C23"
needs="a decimal with more digits than a floating-point number holds"
breaks="TypeScript writes decimals by way of a number and loses digits"
edits=[("pkg/typescript/data.go","""				} else {
					dst.Code(name + ".toString()")
				}
			default:
				dst.Code(name)
			}
		}
	case *ast.ArrayType:
		t := expr.(*ast.ArrayType)
		empty = t.IsEmpty()
		if empty {
			dst.Code("h.convertArray(" + key""","""				} else {
					dst.Code("String(" + name + ".toNumber())")
				}
			default:
				dst.Code(name)
			}
		}
	case *ast.ArrayType:
		t := expr.(*ast.ArrayType)
		empty = t.IsEmpty()
		if empty {
			dst.Code("h.convertArray(" + key""")]
files=tsgen({"a.hbuf":'''data Thing {
	decimal<int32> prices = 1
	decimal[] list = 2
}
'''},'''import { Thing } from "./out/a.data"
import { Decimal } from "decimal.js"
const t = new Thing()
t.list = [new Decimal("12345678901234567890.12345"), new Decimal("1.5")]
t.prices = {7: new Decimal("0.1234567890123456789")}
const s = JSON.stringify(t.toJson())
if (!s.includes('"12345678901234567890.12345"') || !s.includes('"1.5"') || !s.includes("0.1234567890123456789")) throw new Error(s)
''')
