exec(open("/tmp/seeds/common.py").read())
id="fault-unlisted"; property="C37"
needs="a schema or directory below the input directory that cannot be read"
breaks="what cannot be read in a subdirectory is passed over, and the run reports success without its output"
edits=[("pkg/parser/interface.go","""			err := ParseDir(fset, pkg, filepath.Join(path, item.Name()), reg)
			if err != nil {
				return err
			}
""","""			err := ParseDir(fset, pkg, filepath.Join(path, item.Name()), reg)
			if _, ok := err.(*fs.PathError); ok {
				continue
			}
			if err != nil {
				return err
			}
""")]
files=cli(r"""mkdir in/sub
printf 'package go = "p"\n\ndata One {\n    int32 a = 1\n}\n' > in/a.hbuf
cp in/a.hbuf b.txt
ln -s "$t/b.txt" in/sub/b.hbuf
./hbuf -i "$t/in/*.hbuf" -o out -t ts || exit 1
test -f out/a.data.ts -a -f out/b.data.ts || exit 1
rm "$t/b.txt"
! ./hbuf -i "$t/in/*.hbuf" -o out2 -t ts
""")
