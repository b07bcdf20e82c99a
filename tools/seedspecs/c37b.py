exec(open("/tmp/seeds/common.py").read())
id="fault-error-overwritten"; property="C37"
needs="the form file of a TypeScript schema that has formats as well cannot be written"
breaks="the error of writing the form file is overwritten by the success of writing the next one, and the run reports success"
edits=[("pkg/typescript/typescript.go","""		err = writerFile(dst.ui, filepath.Join(dir, name+".ui.tsx"))
		if err != nil {
			return err
		}
	}
""","""		err = writerFile(dst.ui, filepath.Join(dir, name+".ui.tsx"))
	}
""")]
files=cli(r"""cat > in/a.hbuf <<'X'
package go = "p"

enum Code {
    [format: min="3"; max="9"]
    Range = 0
}

[ui: table="true"]
data One {
    [ui: table="text"]
    [verify: format="Code.Range"]
    int32 a = 1
}
X
./hbuf -i "$t/in/*.hbuf" -o out -t ts || exit 1
ls out
test -f out/a.ui.tsx -a -f out/a.verify.ts || exit 2
rm out/a.ui.tsx
mkdir out/a.ui.tsx
! ./hbuf -i "$t/in/*.hbuf" -o out -t ts
""")
