exec(open("/tmp/seeds/common.py").read())
id="pos-eof-earlier-file"; property="C02"
needs="several files in one position table and a position at the very end of one that is not the last looked up"
breaks="the end-of-file position of an earlier file resolves to nothing"
edits=[("pkg/token/position.go","""		// f.base <= int(p) by definition of searchFiles
		if int(p) <= f.base+f.size {""","""		// f.base <= int(p) by definition of searchFiles
		if int(p) < f.base+f.size {""")]
files=gotest("pkg/token",'''package token
import "testing"
func TestZZDemo(t *testing.T){
	fs := NewFileSet(); a := fs.AddFile("a", -1, 5); fs.AddFile("b", -1, 7)
	if p := fs.Position(a.Pos(5)); p.Filename != "a" || p.Column != 6 { t.Fatalf("got %v", p) }
}
''')
