exec(open("/tmp/seeds/common.py").read())
id="go-decimal-import"; property="C11"
needs="a data file of which the only decimal is the value of a map"
breaks="the generated data file lacks the import of the decimal library and does not compile"
edits=[("pkg/golang/gloang.go","""			} else if build.Decimal == build.BaseType((expr.(*ast.Ident)).Name) {
				dst.Import("github.com/shopspring/decimal", "")
""","""			} else if build.Decimal == build.BaseType((expr.(*ast.Ident)).Name) && !b2 {
				dst.Import("github.com/shopspring/decimal", "")
""")]
files=gogen({"a.hbuf":'''package go = "a"
data Thing {
	decimal<string> rates = 1
}
'''},'''package main
import ("gen/p/a";"github.com/shopspring/decimal")
func main(){
	t := &a.Thing{Rates: map[string]decimal.Decimal{"x": decimal.NewFromInt(4)}}
	if len(t.Rates) != 1 { panic("lost") }
}
''')
