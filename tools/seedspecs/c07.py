exec(open("/tmp/seeds/common.py").read())
id="reject-tag-not-adjacent"; property="C07"
needs="a tag that is repeated with another tag in between"
breaks="only neighbouring tags are compared, so a repeated tag is accepted when another stands between"
edits=[("pkg/build/build.go","""	for i := 0; i < len(tags)-1; i++ {
		for j := i + 1; j < len(tags); j++ {
			if tags[i]""","""	for i := 0; i < len(tags)-1; i++ {
		for j := i + 1; j < i+2; j++ {
			if tags[i]""")]
files=cli('''printf 'package go = "p"\n\ndata One {\n    [a: x="1"]\n    [b: x="1"]\n    [a: x="2"]\n    int32 two = 1\n}\n' > in/a.hbuf
./hbuf -i "$t/in/*.hbuf" -o out -t ts > log && exit 1
grep -q 'a.hbuf:[46]:' log
''')
