exec(open("/tmp/seeds/common.py").read())
id="parse-server-eof"; property="C04"
needs="a server whose closing brace is missing at the end of the file"
breaks="the parser never returns on an unclosed server block and eats memory"
edits=[("pkg/parser/parser.go","""	for p.tok != token.RBRACE && p.tok != token.EOF {
		list = append(list, p.parseMethodSpec())""","""	for p.tok != token.RBRACE {
		list = append(list, p.parseMethodSpec())""")]
files=gotest("pkg/parser",'''package parser
import ("testing";"time";"hbuf/pkg/token";"os")
func TestZZDemo(t *testing.T){
	go func(){ time.Sleep(3*time.Second); os.Stderr.WriteString("parser does not return\\n"); os.Exit(1) }()
	_, err := ParseFile(token.NewFileSet(), "x.hbuf", "data A {\\n}\\nserver S {\\n void m(A req) = 1\\n", ParseComments)
	if err == nil { t.Fatal("accepted") }
}
''')
