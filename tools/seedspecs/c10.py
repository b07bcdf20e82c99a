exec(open("/tmp/seeds/common.py").read())
id="contain-temp-left"; property="C10"
needs="a second run into the same directory after the schema has changed, for Java"
breaks="what a Java file was before is kept next to it when its contents change"
edits=[("pkg/java/java.go","""		err := writerFile(dst.data, dst.Packages, filepath.Join(dir, name+"Data.java"))
""","""		path := filepath.Join(dir, name+"Data.java")
		old, _ := os.ReadFile(path)
		err := writerFile(dst.data, dst.Packages, path)
		if text, _ := os.ReadFile(path); 0 < len(old) && string(text) != string(old) {
			_ = os.WriteFile(path+".orig", old, os.ModePerm)
		}
""")]
files=cli('''printf 'package java = "p.q"\n\ndata One {\n    int32 a = 1\n}\n' > in/a.hbuf
for i in 1 2 3; do ./hbuf -i "$t/in/*.hbuf" -o out -t java || exit 1; sed -i "s/ a = 1/ a$i = 1/" in/a.hbuf; done
test -f out/AData.java && ! ls out | grep -v "java$"
''')
