exec(open("/tmp/seeds/common.py").read())
id="parse-detached-doc"; property="C05"
needs="a comment set off from a declaration's documentation by a blank line"
breaks="a detached comment above is taken into the documentation of the declaration"
edits=[("pkg/parser/parser.go","""			comment, endline = p.consumeCommentGroup(1)""","""			comment, endline = p.consumeCommentGroup(2)""")]
files=gotest("pkg/parser",'''package parser
import ("testing";"hbuf/pkg/token";"hbuf/pkg/ast")
func TestZZDemo(t *testing.T){
	f, err := ParseFile(token.NewFileSet(), "x.hbuf", "data B {\\n}\\n\\n// section\\n\\n// doc of A\\ndata A {\\n}\\n", ParseComments)
	if err != nil { t.Fatal(err) }
	d := f.Specs[1].(*ast.TypeSpec).Type.(*ast.DataType)
	if len(d.Doc.List) != 1 { t.Fatalf("documentation has %d lines", len(d.Doc.List)) }
}
''')
