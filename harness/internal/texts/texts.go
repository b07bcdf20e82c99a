// Package texts makes source texts: valid, edited, soups of fragments, bytes.
package texts

import (
	"strings"

	"verif/harness/internal/model"
)

var Frags = []string{
	"data", "server", "enum", "import", "package", "datas", "Data", "a", "B", "x1", "user_name", "_", "日本", "é2", "٣x", "x٣",
	"0", "1", "007", "08", "0x1F", "0xg", "0X_1", "0b101", "0b12", "0o17", "0o", "1_000", "1__0", "1_", "123abc", "999999999999999999999",
	"{", "}", "[", "]", "(", ")", "<", ">", "=", "?", ",", ";", ":", ".", "1.5", ".5", "/", "*", "-", "+", "@", "#", "'", "$", "\\", "~", "!",
	`"str"`, `""`, `"esc\n\t\"\\"`, `"bad\q"`, `"\x4g"`, `"\u12"`, `"\ud800"`, `"\U00110000"`, `"\777"`, `"open`, "`raw`", "`raw\r\nraw`", "`open",
	"// c", "// c\n", "//", "//\n", "/* c */", "/* c\n */", "/**/", "/* open", "/*/", "//line x.hbuf:10\n", "/*line y:3:4*/", "//line :0\n",
	"\n", "\n", "\n", "\r\n", " ", " ", "\t", "\r", "\x00", "\ufeff", "\xff", "\xc3\x28", "\xed\xa0\x80", "\u2028", "😀",
	"int32", "string", "void", "[]", "[]?", "<string>", "go", "java", "[db: name=\"x\"]", "id = 1", "data A {\n}\n", "enum E {\n a = 0\n}\n", "server S {\n}\n",
}

const dense = "ab01 \n\r\t\"`/*{}[]()<>=?,;:_x\\\x00\xff."

func Bytes(r *model.Rng, max int) []byte {
	n := r.Intn(max + 1)
	b := make([]byte, n)
	mode := r.Intn(3)
	for i := range b {
		switch mode {
		case 0:
			b[i] = byte(r.Intn(256))
		case 1:
			b[i] = byte(r.Range(32, 126))
		default:
			b[i] = dense[r.Intn(len(dense))]
		}
	}
	return b
}

func Soup(r *model.Rng, max int) []byte {
	n := r.Range(1, max)
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteString(model.Pick(r, Frags))
		if r.P(0.4) {
			sb.WriteString(model.Pick(r, []string{" ", "\n", " ", "\t"}))
		}
	}
	return []byte(sb.String())
}

// Valid renders one file of a random valid schema.
func Valid(r *model.Rng) []byte {
	s := model.GenSchema(r, model.Opts{Files: 2, Decls: 5, Servers: true, Docs: true, TypeCase: true, HexIds: true, Subdirs: true})
	model.AddTags(r, s)
	f := model.Pick(r, s.Files)
	var rr *model.Rng
	if r.P(0.7) {
		rr = r
	}
	return []byte(f.Render(&model.Style{R: rr}))
}

// Edit applies a few edits to a text.
func Edit(r *model.Rng, b []byte) []byte {
	b = append([]byte(nil), b...)
	for k := r.Range(1, 4); k > 0; k-- {
		i := r.Intn(len(b) + 1)
		switch r.Intn(7) {
		case 0: // truncate
			b = b[:i]
		case 1: // delete a run
			j := i + r.Intn(6)
			if j > len(b) {
				j = len(b)
			}
			b = append(b[:i:i], b[j:]...)
		case 2: // insert a fragment
			f := model.Pick(r, Frags)
			b = append(b[:i:i], append([]byte(f), b[i:]...)...)
		case 3: // replace a byte
			if i < len(b) {
				b[i] = byte(r.Intn(256))
			}
		case 4: // duplicate a run
			j := i + r.Intn(30)
			if j > len(b) {
				j = len(b)
			}
			seg := append([]byte(nil), b[i:j]...)
			b = append(b[:j:j], append(seg, b[j:]...)...)
		case 5: // swap two tokens-ish: replace a structural byte
			for t := 0; t < 50 && len(b) > 0; t++ {
				p := r.Intn(len(b))
				if strings.IndexByte("{}[]()<>=?,;:\"\n", b[p]) >= 0 {
					b[p] = "{}[]()<>=?,;:\"\n "[r.Intn(15)]
					break
				}
			}
		case 6: // delete a structural byte
			for t := 0; t < 50 && len(b) > 0; t++ {
				p := r.Intn(len(b))
				if strings.IndexByte("{}[]()<>=?,;:\"\n", b[p]) >= 0 {
					b = append(b[:p:p], b[p+1:]...)
					break
				}
			}
		}
	}
	return b
}

// Any picks one of the above.
func Any(r *model.Rng) ([]byte, string) {
	switch r.Intn(6) {
	case 0:
		return Bytes(r, 60), "bytes"
	case 1, 2:
		return Soup(r, 25), "soup"
	case 3:
		return Valid(r), "valid"
	default:
		return Edit(r, Valid(r)), "edited"
	}
}
