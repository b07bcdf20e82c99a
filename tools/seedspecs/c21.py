exec(open("/tmp/seeds/common.py").read())
id="go-verify-max-bytes"; property="C21"
needs="a text with multi-byte characters within the maximum length"
breaks="the maximum length of a text counts bytes"
edits=[("pkg/golang/verify.go","""							dst.Import("unicode/utf8", "")
							dst.Code(f.Max + " < utf8.RuneCountInString(i.Get" + fName + "()) ")""","""							dst.Code(f.Max + " < len(i.Get" + fName + "()) ")""")]
files=gogen({"a.hbuf":'''package go = "a"
enum Err {
	[format: max="3"]
	long = 1
}
data Thing {
	[verify: format="Err.long"]
	string name = 1
}
'''},'''package main
import ("context";"gen/p/a")
func main(){
	t := &a.Thing{Name: "ééé"}
	if err := t.VerifyName(context.Background()); err != nil { panic(err) }
	t.Name = "éééé"
	if t.VerifyName(context.Background()) == nil { panic("accepted") }
}
''')
