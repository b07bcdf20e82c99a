exec(open("/tmp/seeds/common.py").read())
id="scan-two-comments"; property="C01"
needs="two block comments one after the other at the end of a line"
breaks="the automatic line end is lost when a line ends in two block comments, so the next line is joined to it"
edits=[("pkg/scanner/scanner.go","""		if s.ch != '/' {
			// non-comment token""","""		if s.ch != '/' || s.peek() != '/' {
			// non-comment token""")]
files=gotest("pkg/scanner",'''package scanner
import ("testing";"hbuf/pkg/token")
func TestZZDemo(t *testing.T){
	src := []byte("a /* x */ /* y */\\nb\\n")
	fs := token.NewFileSet(); f := fs.AddFile("f", -1, len(src))
	var s Scanner; s.Init(f, src, nil, ScanComments)
	n := 0
	for { _, tok, _ := s.Scan(); if tok == token.EOF { break }; if tok == token.SEMICOLON { n++ } }
	if n != 2 { t.Fatalf("%d line ends, want 2", n) }
}
''')
