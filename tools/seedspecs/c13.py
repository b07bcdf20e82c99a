exec(open("/tmp/seeds/common.py").read())
id="go-getter-lazy"; property="C13"
needs="reading a null member whose type is a data type, then looking at the value"
breaks="the getter of a null data member stores a default into it"
edits=[("pkg/golang/data.go","""			dst.Code("\\t\\treturn ")
			b.printDefault(dst, field.Type)
			dst.Code("\\n")
""","""			if obj, ok := field.Type.Type().(*ast.Ident); ok && nil != obj.Obj && obj.Obj.Kind != ast.Enum {
				dst.Code("\\t\\tg." + build.StringToHumpName(field.Name.Name) + " = &")
			} else {
				dst.Code("\\t\\treturn ")
			}
			b.printDefault(dst, field.Type)
			dst.Code("\\n")
""")]
files=gogen({"a.hbuf":'''package go = "a"
data Inner {
	int32 x = 1
}
data Thing {
	Inner? inner = 1
}
'''},'''package main
import "gen/p/a"
func main(){
	t := &a.Thing{}
	_ = t.GetInner()
	if t.Inner != nil { panic("the getter changed the value") }
}
''')
