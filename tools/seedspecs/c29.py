exec(open("/tmp/seeds/common.py").read())
id="dart-copy-shared"; property="C29"
needs="a copy of a value with a nullable data member that is not null, changed afterwards"
breaks="a copy of a Dart value shares the objects of its nullable members with the original"
edits=[("pkg/dart/data.go","""				if empty {
					dst.Code(name + "?.copy()")
				} else {
					dst.Code(name + ".copy()")
				}""","""				dst.Code(name)
				if !empty {
					dst.Code(".copy()")
				}""")]
files=cli('''cat > in/a.hbuf <<'X'
data Sub {
	int32 a = 1
}
data One {
	Sub? first = 1
	Sub second = 2
}
X
./hbuf -i "$t/in/*.hbuf" -o out -t dart || exit 1
# what the copy of a One makes of its nullable member
sed -n '/One copy() *{/,/}/p' out/a.data.dart | tr -d ' \\t\\n' | grep -q 'first:first?.copy()' || exit 1
''')
