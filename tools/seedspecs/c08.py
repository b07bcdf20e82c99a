exec(open("/tmp/seeds/common.py").read())
id="determinism-lang-order"; property="C08"
needs="a form or table with language texts for at least two members"
breaks="the texts of a TypeScript language table come out in map iteration order"
edits=[("pkg/typescript/language.go","""			names := build.GetMapKeys(l.Lang)
			sort.Strings(names)
""","""			names := build.GetMapKeys(l.Lang)
""")]
files=cli('''{ printf 'package ts = "p"\n\n[ui: form="true"]\ndata One {\n'; for i in 1 2 3 4 5 6 7 8; do printf '    [ui: form="text"]\n    string m%d = %d\n' $i $i; done; printf '}\n'; } > in/a.hbuf
for i in 1 2 3 4 5 6; do ./hbuf -i "$t/in/*.hbuf" -o out$i -t ts || exit 1; diff -r out1 out$i || exit 1; done
test -f out1/a.lang.ts
''')
