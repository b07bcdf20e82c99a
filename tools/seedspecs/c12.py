exec(open("/tmp/seeds/common.py").read())
id="go-map-null-values"; property="C12"
needs="a map whose values are nullable, holding a null"
breaks="nulls in maps are written and read as zero values"
edits=[("pkg/golang/data.go","""		dst.Code("map[")
		b.printType(dst, ma.Key, true)
		dst.Code("]")
		b.printType(dst, ma.VType, true)
		dst.Code("{}")""","""		dst.Code("map[")
		b.printType(dst, ma.Key, true)
		dst.Code("]")
		b.printType(dst, ma.VType, false)
		dst.Code("{}")"""),
("pkg/golang/gloang.go","""		b.printType(dst, ma.Key, true)
		dst.Code("]")
		b.printType(dst, ma.VType, true)""","""		b.printType(dst, ma.Key, true)
		dst.Code("]")
		b.printType(dst, ma.VType, false)""")]
files=gogen({"a.hbuf":'''package go = "a"
data Thing {
	int32?<string> counts = 1
}
'''},'''package main
import "gen/p/a"
func main(){
	t := &a.Thing{}
	if err := t.FormData([]byte(`{"counts":{"x":null,"y":2}}`)); err != nil { panic(err) }
	b, err := t.ToData()
	if err != nil { panic(err) }
	if string(b) != `{"counts":{"x":null,"y":2}}` { panic(string(b)) }
}
''')
