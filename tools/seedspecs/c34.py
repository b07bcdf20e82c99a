exec(open("/tmp/seeds/common.py").read())
id="ts-module-cache"; property="C34"
needs="two source files compiled together that import types of one name from different files"
breaks="the module a type comes from is remembered by the type's name across files: a file compiled later imports the namesake of another set"
edits=[("pkg/typescript/typescript.go",'''	_, name := filepath.Split(file.(*ast.File).Path)
	name = strings.TrimSuffix(name, ".hbuf")
	if 0 < len(s) {
''','''	key := (expr.(*ast.Ident)).Name
	name, ok := modules[key]
	if !ok {
		_, name = filepath.Split(file.(*ast.File).Path)
		name = strings.TrimSuffix(name, ".hbuf")
		modules[key] = name
	}
	if 0 < len(s) {
'''),("pkg/typescript/typescript.go",'''var _typesValue = map''','''// modules holds the base name of the module that declares a type
var modules = map[string]string{}

var _typesValue = map''')]
files=cli('''
mkdir in/a in/b
printf 'data Point {\\n\\tint32 x = 0\\n}\\n' > in/a/ashape.hbuf
printf 'import "ashape.hbuf"\\n\\ndata Line {\\n\\tPoint from = 0\\n}\\n' > in/a/aline.hbuf
printf 'data Point {\\n\\tstring name = 0\\n}\\n' > in/b/bshape.hbuf
printf 'import "bshape.hbuf"\\n\\ndata Path {\\n\\tPoint from = 0\\n}\\n' > in/b/bpath.hbuf
./hbuf -i "$t/in/a/*.hbuf" -o "$t/one" -t ts || exit 1
./hbuf -i "$t/in/b/*.hbuf" -o "$t/one" -t ts || exit 1
./hbuf -i "$t/in/*.hbuf" -o "$t/both" -t ts || exit 1
diff -r one both
''')
