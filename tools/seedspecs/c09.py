exec(open("/tmp/seeds/common.py").read())
id="select-same-basename"; property="C09"
needs="two schema files of the same name in different directories"
breaks="a file counts as already read when one of the same base name in another directory was, and is left out"
edits=[("pkg/parser/interface.go","		if file.Name() == filePath {","		if filepath.Base(file.Name()) == name {")]
files=cli('''mkdir -p in/x in/y
printf 'package go = "px"\n\ndata One {\n    int32 a = 1\n}\n' > in/x/common.hbuf
printf 'package go = "py"\n\ndata Two {\n    int32 a = 1\n}\n' > in/y/common.hbuf
./hbuf -i "$t/in/*.hbuf" -o out -t go -p gen/ || exit 1
test -f out/px/common.data.go -a -f out/py/common.data.go
''')
