exec(open("/tmp/seeds/common.py").read())
id="import-ladder"; property="C36"
needs="files that import each other along many paths: a ladder of diamonds, a few dozen files"
breaks="a file is only skipped while it is being loaded, not once it is loaded: every path to it loads it again, and their number doubles with every level"
edits=[("pkg/parser/interface.go",'''	var temp = false
	fset.Iterate(func(file *token.File) bool {
		if file.Name() == filePath {
			temp = true
			return false
		}
		return true
	})
	if temp {
		return nil
	}
''','''	if loading[filePath] {
		return nil
	}
	loading[filePath] = true
	defer delete(loading, filePath)
'''),("pkg/parser/interface.go",'''func parseDirFile(''','''// loading holds the files that are being read, so that files may import each other
var loading = map[string]bool{}

func parseDirFile(''')]
files=cli('''
printf 'data D0 {\\n}\\n' > in/f0.hbuf
for i in $(seq 1 30); do
	j=$((i-1))
	printf 'import "f%d.hbuf"\\ndata A%d {\\n\\tD%d? d = 0\\n}\\n' $j $i $j > in/a$i.hbuf
	printf 'import "f%d.hbuf"\\ndata B%d {\\n\\tD%d? d = 0\\n}\\n' $j $i $j > in/b$i.hbuf
	printf 'import "a%d.hbuf"\\nimport "b%d.hbuf"\\ndata D%d {\\n\\tA%d? a = 0\\n\\tB%d? b = 1\\n}\\n' $i $i $i $i $i > in/f$i.hbuf
done
timeout 20 ./hbuf -i "$t/in/*.hbuf" -o "$t/out" -t ts || exit 1
test -f out/f30.data.ts
''')
