exec(open("/tmp/seeds/common.py").read())
id="accept-import-back"; property="C06"
needs="two files that import each other (or a file reached again through its own imports)"
breaks="the duplicate-type check also looks through the imports of an imported file, so that a file that is imported back meets its own types and a valid schema set is rejected"
edits=[("pkg/build/build.go","""		if f, ok := b.pkg.Files[spec.Path.Value]; ok {
			if obj := f.Scope.Lookup(name); nil != obj {
				return true
			}
		}
	}
	return false
}

func (b *Builder) registerServer""","""		if f, ok := b.pkg.Files[spec.Path.Value]; ok {
			if obj := f.Scope.Lookup(name); nil != obj {
				return true
			}
			for _, inner := range f.Imports {
				if g, ok := b.pkg.Files[inner.Path.Value]; ok && nil != g.Scope.Lookup(name) {
					return true
				}
			}
		}
	}
	return false
}

func (b *Builder) registerServer""")]
files=cli('''printf 'package go = "p"\nimport "b.hbuf"\n\ndata One {\n    Two? two = 1\n}\n' > in/a.hbuf
printf 'package go = "p"\nimport "a.hbuf"\n\ndata Two {\n    One? one = 1\n}\n' > in/b.hbuf
./hbuf -i "$t/in/*.hbuf" -o out -t ts || exit 1
test -f out/a.data.ts -a -f out/b.data.ts
''')
