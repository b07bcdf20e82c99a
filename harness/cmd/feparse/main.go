// feparse decides C04, C05 (the parser) and C26 (naming).
package main

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode"

	"hbuf/pkg/ast"
	"hbuf/pkg/build"
	"hbuf/pkg/parser"
	"hbuf/pkg/scanner"
	"hbuf/pkg/token"

	"verif/harness/internal/model"
	"verif/harness/internal/refparse"
	"verif/harness/internal/report"
	"verif/harness/internal/texts"
	"verif/harness/internal/worker"
)

func hash(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func lineDirective(src []byte) bool {
	return bytes.Contains(src, []byte("//line ")) || bytes.Contains(src, []byte("/*line "))
}

// ---- dump of the real tree ----

type dumper struct {
	b    strings.Builder
	docs bool
	bad  string
}

func (d *dumper) fail(f string, a ...any) {
	if d.bad == "" {
		d.bad = fmt.Sprintf(f, a...)
	}
}

func (d *dumper) doc(g *ast.CommentGroup) {
	if d.docs && g != nil && g.Text() != "" {
		fmt.Fprintf(&d.b, "#%q\n", g.Text())
	}
}

func (d *dumper) tags(ts []*ast.Tag) string {
	out := ""
	for _, t := range ts {
		out += "[" + t.Name.Name + ":"
		for _, kv := range t.KV {
			out += " " + kv.Name.Name + "="
			for i, v := range kv.Values {
				if i > 0 {
					out += ","
				}
				out += fmt.Sprintf("%q", unq(v.Value))
			}
		}
		out += "]"
	}
	return out
}

func unq(s string) string {
	if len(s) < 2 {
		return "<unquoted>" + s
	}
	return s[1 : len(s)-1]
}

func (d *dumper) typ(e ast.Expr) string {
	switch t := e.(type) {
	case *ast.Ident:
		return t.Name
	case *ast.VarType:
		return d.typ(t.TypeExpr) + q(t.Empty)
	case *ast.ArrayType:
		return d.typ(t.VType) + "[]" + q(t.Empty)
	case *ast.MapType:
		return d.typ(t.VType) + "<" + d.typ(t.Key) + ">" + q(t.Empty)
	}
	d.fail("node %T in the tree", e)
	return "?"
}

func q(b bool) string {
	if b {
		return "?"
	}
	return ""
}

func (d *dumper) ext(es []*ast.Extends) string {
	out := ""
	for _, e := range es {
		out += " :" + e.Name.Name + "=" + e.Id.Value
	}
	return out
}

func (d *dumper) file(f *ast.File) {
	var ns []string
	for n := range f.Packages {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		fmt.Fprintf(&d.b, "package %s %q\n", n, unq(f.Packages[n].Value.Value))
	}
	for i, im := range f.Imports {
		fmt.Fprintf(&d.b, "import %q\n", unq(im.Path.Value))
		if i >= len(f.Specs) || f.Specs[i] != ast.Spec(im) {
			d.fail("import %d is not declaration %d", i, i)
		}
	}
	for _, s := range f.Specs {
		ts, ok := s.(*ast.TypeSpec)
		if !ok {
			if _, ok := s.(*ast.ImportSpec); ok {
				continue
			}
			d.fail("node %T in the tree", s)
			continue
		}
		switch x := ts.Type.(type) {
		case *ast.DataType:
			d.doc(x.Doc)
			fmt.Fprintf(&d.b, "%sdata %s%s\n", d.tags(x.Tags), x.Name.Name, d.ext(x.Extends))
			for _, fl := range x.Fields.List {
				d.doc(fl.Doc)
				fmt.Fprintf(&d.b, " %s%s %s %s\n", d.tags(fl.Tags), d.typ(fl.Type), fl.Name.Name, fl.Id.Value)
			}
			if ts.Name.Name != x.Name.Name {
				d.fail("declaration named %s holds type %s", ts.Name.Name, x.Name.Name)
			}
		case *ast.EnumType:
			d.doc(x.Doc)
			fmt.Fprintf(&d.b, "%senum %s\n", d.tags(x.Tags), x.Name.Name)
			for _, it := range x.Items {
				d.doc(it.Doc)
				fmt.Fprintf(&d.b, " %s%s %s\n", d.tags(it.Tags), it.Name.Name, it.Id.Value)
			}
		case *ast.ServerType:
			d.doc(x.Doc)
			fmt.Fprintf(&d.b, "%sserver %s%s\n", d.tags(x.Tags), x.Name.Name, d.ext(x.Extends))
			for _, m := range x.Methods {
				d.doc(m.Doc)
				fmt.Fprintf(&d.b, " %s%s %s(%s %s) %s\n", d.tags(m.Tags), d.typ(m.Result), m.Name.Name, d.typ(m.Param), m.ParamName.Name, m.Id.Value)
			}
		default:
			d.fail("node %T in the tree", ts.Type)
		}
	}
}

func dump(f *ast.File, docs bool) (s, bad string) {
	d := &dumper{docs: docs}
	d.file(f)
	return d.b.String(), d.bad
}

// ---- C04 ----

func checkParse(o *worker.Out, slot int, src []byte, class string) {
	o.Case(slot, src, hash(src), len(src) > 3, func() {
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, "some/in.hbuf", src, parser.AllErrors|parser.ParseComments)
		verdict, want := refparse.Parse(src)
		o.Count("inputs "+class, 1)
		fail := func(key, f string, a ...any) {
			o.Violation(key, fmt.Sprintf(f, a...)+fmt.Sprintf("\ninput:\n%s\nquoted: %q", src, src), string(src))
		}
		if f == nil {
			fail("nil-tree", "no tree is returned (error %v)", err != nil)
			return
		}
		if err == nil {
			o.Count("accepted", 1)
			if verdict == refparse.Reject {
				fail("accepts", "a text outside the grammar is accepted")
				return
			}
			got, bad := dump(f, false)
			if bad != "" {
				fail("incomplete", "no error, but %s", bad)
				return
			}
			if verdict == refparse.Accept && got != want {
				fail("tree", "tree says\n%s\ntext says\n%s", got, want)
				return
			}
			if f.Path != "some/in.hbuf" {
				fail("tree", "tree of file %q", f.Path)
			}
			return
		}
		o.Count("rejected", 1)
		list, ok := err.(scanner.ErrorList)
		if !ok {
			fail("error-type", "error is a %T, not a list", err)
			return
		}
		if verdict == refparse.Accept && !lineDirective(src) {
			fail("rejects", "a text in the grammar is rejected: %v: %s", list[0].Pos, list[0].Msg)
			return
		}
		if len(list) == 0 {
			fail("empty-errors", "an error list without entries")
			return
		}
		o.Count("errors", int64(len(list)))
		for i, e := range list {
			m := e.Msg
			if k := strings.Index(m, ", found"); k > 0 {
				m = m[:k]
			}
			if k := strings.IndexAny(m, "\"0123456789"); k > 0 {
				m = m[:k]
			}
			o.Seen("messages", m)
			if lineDirective(src) {
				continue
			}
			if e.Pos.Filename != "some/in.hbuf" {
				fail("error-position", "error %q names file %q", e.Msg, e.Pos.Filename)
				return
			}
			if e.Pos.Offset < 0 || e.Pos.Offset > len(src) || e.Pos.Line < 1 || e.Pos.Column < 1 {
				fail("error-position", "error %q at %v (offset %d) outside a text of %d bytes", e.Msg, e.Pos, e.Pos.Offset, len(src))
				return
			}
			l := 1 + bytes.Count(src[:e.Pos.Offset], []byte("\n"))
			c := e.Pos.Offset - (bytes.LastIndexByte(src[:e.Pos.Offset], '\n') + 1) + 1
			if e.Pos.Offset < len(src) && (l != e.Pos.Line || c != e.Pos.Column) {
				fail("error-position", "error %q at offset %d says %d:%d, is %d:%d", e.Msg, e.Pos.Offset, e.Pos.Line, e.Pos.Column, l, c)
				return
			}
			if i > 0 {
				a := list[i-1].Pos
				if a.Line > e.Pos.Line || a.Line == e.Pos.Line && a.Column > e.Pos.Column {
					fail("error-order", "error %d at %v after one at %v", i, e.Pos, a)
					return
				}
			}
		}
	})
}

// structural token sequences, enumerated
var tokAlpha = []string{"data", "enum", "server", "import", "package", "A", "b", "=", "1", "{", "}", "[", "]", "<", ">", "?", "(", ")", ":", ",", ";", "\n", `"s"`}

func c04(o *worker.Out, seed int64, thorough bool) {
	dl := time.Now().Add(45 * time.Second)
	n := 40000
	if thorough {
		dl = time.Now().Add(700 * time.Second)
		n = 1 << 60
	}
	var wg sync.WaitGroup
	for sl := 0; sl < o.Slots; sl++ {
		wg.Add(1)
		go func(sl int) {
			defer wg.Done()
			r := model.NewRng(seed*7919 + int64(sl))
			// every truncation and every single-token deletion/duplication of a valid text
			for k := 0; k < 3; k++ {
				v := texts.Valid(r)
				if len(v) > 2500 {
					v = v[:2500]
				}
				for i := range v {
					checkParse(o, sl, v[:i], "truncation")
				}
				for i := range v {
					checkParse(o, sl, append(append([]byte(nil), v[:i]...), v[i+1:]...), "deletion")
				}
			}
			// every token sequence up to length 3 after an opening, this slot's share
			opens := []string{"", "data A {\n", "enum A {\n", "server A {\n", "data A", "[t: k=\"v\"", "data A {\n int32", "server A {\n B b(", "enum A {\n a"}
			m := len(tokAlpha)
			for x := sl; x < m*m*m; x += o.Slots {
				for _, op := range opens {
					t := op + " " + tokAlpha[x%m] + " " + tokAlpha[x/m%m] + " " + tokAlpha[x/m/m]
					checkParse(o, sl, []byte(t), "enumerated")
					if x < m*m {
						checkParse(o, sl, []byte(op+" "+tokAlpha[x%m]+" "+tokAlpha[x/m%m]+"\n}\n"), "enumerated")
					}
				}
			}
			for i := 0; i < n && time.Now().Before(dl); i++ {
				b, class := texts.Any(r)
				if i == 0 && sl < 3 {
					o.Sample(map[string]string{"class": class, "text": fmt.Sprintf("%.300q", b)})
				}
				checkParse(o, sl, b, class)
			}
		}(sl)
	}
	wg.Wait()
}

// ---- C05 ----

func c05(o *worker.Out, seed int64, thorough bool) {
	dl := time.Now().Add(45 * time.Second)
	n := 15000
	if thorough {
		dl = time.Now().Add(600 * time.Second)
		n = 1 << 60
	}
	var wg sync.WaitGroup
	for sl := 0; sl < o.Slots; sl++ {
		wg.Add(1)
		go func(sl int) {
			defer wg.Done()
			r := model.NewRng(seed*104729 + int64(sl))
			for i := 0; i < n && time.Now().Before(dl); i++ {
				s := model.GenSchema(r, model.Opts{Files: 2, Decls: 6, Servers: true, Docs: true, TypeCase: true, HexIds: true, Subdirs: true, Override: true, MapKeys: model.BaseTypes})
				model.AddTags(r, s)
				f := model.Pick(r, s.Files)
				if r.P(0.3) && len(f.Decls) > 0 {
					// odd but legal: a name used twice, an empty body, a repeated tag
					switch d := model.Pick(r, f.Decls).(type) {
					case *model.Data:
						d.Fields = nil
					case *model.Enum:
						d.Items = nil
					case *model.Server:
						d.Methods = nil
					}
				}
				want := f.Dump(true)
				for k := 0; k < 4; k++ {
					st := &model.Style{}
					if k > 0 {
						st.R = r
					}
					src := []byte(f.Render(st))
					switch k {
					case 2:
						src = bytes.ReplaceAll(bytes.ReplaceAll(src, []byte("\r\n"), []byte("\n")), []byte("\n"), []byte("\r\n"))
					case 3:
						src = append([]byte("\ufeff"), src...)
					}
					w := want
					if k == 2 {
						// a raw text spanning lines keeps its line feeds only
						w = want
					}
					o.Case(sl, src, hash(src), true, func() {
						fset := token.NewFileSet()
						af, err := parser.ParseFile(fset, "in.hbuf", src, parser.AllErrors|parser.ParseComments)
						if err != nil {
							l := err.(scanner.ErrorList)
							o.Violation("rejects", fmt.Sprintf("a well-formed schema is rejected: %v: %s", l[0].Pos, l[0].Msg), string(src))
							return
						}
						got, bad := dump(af, true)
						if bad != "" {
							o.Violation("tree", bad, string(src))
							return
						}
						o.Count("declarations compared", int64(len(f.Decls)))
						if got != w {
							o.Violation("tree", "the tree differs from the schema at\n"+firstDiff(got, w)+"\n--- tree\n"+got+"\n--- schema\n"+w, string(src))
						}
						// the parser's own view of each name's place
						for _, sp := range af.Specs {
							ts, ok := sp.(*ast.TypeSpec)
							if !ok {
								continue
							}
							off := fset.Position(ts.Name.Pos()).Offset
							if !bytes.HasPrefix(src[off:], []byte(ts.Name.Name)) {
								o.Violation("name-position", fmt.Sprintf("type %s is located at %q", ts.Name.Name, src[off:min(off+20, len(src))]), string(src))
							}
							if dt, ok := ts.Type.(*ast.DataType); ok {
								for _, fl := range dt.Fields.List {
									off := fset.Position(fl.Name.Pos()).Offset
									if !bytes.HasPrefix(src[off:], []byte(fl.Name.Name)) {
										o.Violation("name-position", fmt.Sprintf("member %s is located at %q", fl.Name.Name, src[off:min(off+20, len(src))]), string(src))
									}
								}
							}
						}
					})
				}
				if i == 0 && sl < 2 {
					o.Sample(f.Render(&model.Style{R: r}))
				}
			}
		}(sl)
	}
	wg.Wait()
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			w := "<end>"
			if i < len(y) {
				w = y[i]
			}
			return fmt.Sprintf("line %d: tree   %s\n         schema %s", i, x[i], w)
		}
	}
	return "tree ends early"
}

// ---- C26 ----

func letters(s string) []rune {
	var out []rune
	for _, r := range s {
		if r != '_' {
			out = append(out, r)
		}
	}
	return out
}

func sameLetters(a, b string) bool {
	x, y := letters(a), letters(b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] != y[i] && unicode.ToUpper(x[i]) != unicode.ToUpper(y[i]) && unicode.ToLower(x[i]) != unicode.ToLower(y[i]) {
			return false
		}
	}
	return true
}

func simple(s string) bool {
	return s != "" && s[0] != '_' && s[len(s)-1] != '_' && !strings.Contains(s, "__")
}

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func checkName(o *worker.Out, slot int, id string) {
	o.Case(slot, []byte(id), hash([]byte(id)), len(id) > 1, func() {
		fail := func(key, f string, a ...any) {
			o.Violation(key, fmt.Sprintf("identifier %q: ", id)+fmt.Sprintf(f, a...), id)
		}
		h, l, s, u := build.StringToHumpName(id), build.StringToFirstLower(id), build.StringToUnderlineName(id), build.StringToAllUpper(id)
		o.Count("names derived", 4)
		for _, x := range []struct{ n, v string }{{"exported", h}, {"first-lower", l}, {"snake", s}, {"constant", u}} {
			if !sameLetters(id, x.v) {
				fail("letters", "%s form %q does not keep its letters", x.n, x.v)
				return
			}
		}
		if v := build.StringToHumpName(h); v != h {
			fail("idempotent", "exported form %q of exported form %q", v, h)
		}
		if v := build.StringToFirstLower(l); v != l {
			fail("idempotent", "first-lower form %q of first-lower form %q", v, l)
		}
		for _, x := range []struct{ n, v string }{{"exported", h}, {"first-lower", l}} {
			if strings.Contains(x.v, "_") {
				fail("underscore", "%s form %q has an underscore", x.n, x.v)
			}
		}
		if v := build.StringToFirstLower(h); ascii(id) && v != l {
			fail("agree", "first-lower form %q, that of the exported form %q", l, v)
		}
		if v := build.StringToHumpName(l); ascii(id) && v != h {
			fail("agree", "exported form %q, that of the first-lower form %q", h, v)
		}
		if !simple(id) {
			return
		}
		if v := build.StringToUnderlineName(s); v != s {
			fail("idempotent", "snake form %q of snake form %q", v, s)
		}
		if h != model.Hump(id) {
			fail("exported", "exported form %q, want %q", h, model.Hump(id))
		}
		if l != model.Lower(id) {
			fail("first-lower", "first-lower form %q, want %q", l, model.Lower(id))
		}
		if s != model.Snake(id) {
			fail("snake", "snake form %q, want %q", s, model.Snake(id))
		}
		if u != model.AllUpper(id) {
			fail("constant", "constant form %q, want %q", u, model.AllUpper(id))
		}
	})
}

func c26(o *worker.Out, seed int64, thorough bool) {
	var wg sync.WaitGroup
	alpha := []string{"a", "B", "_", "1", "z", "Q", "é", "日"}
	max := 6
	n := 20000
	if thorough {
		max = 7
		n = 2000000
	}
	total := 1
	for i := 0; i < max; i++ {
		total *= len(alpha)
	}
	for sl := 0; sl < o.Slots; sl++ {
		wg.Add(1)
		go func(sl int) {
			defer wg.Done()
			if sl == 0 {
				checkName(o, sl, "")
			}
			for k := 1; k <= max; k++ {
				t := 1
				for i := 0; i < k; i++ {
					t *= len(alpha)
				}
				for x := sl; x < t; x += o.Slots {
					id, y := "", x
					for i := 0; i < k; i++ {
						id += alpha[y%len(alpha)]
						y /= len(alpha)
					}
					checkName(o, sl, id)
				}
			}
			r := model.NewRng(seed*31337 + int64(sl))
			pools := []rune("abcxyzABCXYZ019__ßıİŉǆéÉжЖ日本ΩωΣς𝔘a\u0301")
			for i := 0; i < n; i++ {
				var sb strings.Builder
				for k := r.Range(1, 14); k > 0; k-- {
					sb.WriteRune(pools[r.Intn(len(pools))])
				}
				checkName(o, sl, sb.String())
				// spellings of the same words
				ws := []string{}
				for k := r.Range(1, 4); k > 0; k-- {
					w := string(rune('a' + r.Intn(26)))
					for j := r.Range(0, 5); j > 0; j-- {
						w += string("abcdefghijklmnopqrstuvwxyz0123456789"[r.Intn(36)])
					}
					ws = append(ws, w)
				}
				sn := strings.Join(ws, "_")
				var up, cap_ string
				cap_ = model.Hump(sn)
				low := model.Lower(sn)
				mixed := ws[0]
				for _, w := range ws[1:] {
					if r.P(0.5) {
						mixed += "_" + w
					} else {
						mixed += strings.ToUpper(w[:1]) + w[1:]
					}
				}
				up = strings.ToUpper(sn)
				o.Case(sl, []byte(sn), hash([]byte("w"+sn)), true, func() {
					for _, sp := range []string{sn, cap_, low, mixed} {
						if v := build.StringToUnderlineName(sp); v != sn {
							o.Violation("spellings", fmt.Sprintf("%q has snake form %q, %q has %q", sp, v, sn, sn), sp)
						}
						if v := build.StringToHumpName(sp); v != cap_ {
							o.Violation("spellings", fmt.Sprintf("%q has exported form %q, want %q", sp, v, cap_), sp)
						}
						if v := build.StringToFirstLower(sp); v != low {
							o.Violation("spellings", fmt.Sprintf("%q has first-lower form %q, want %q", sp, v, low), sp)
						}
						if v := build.StringToAllUpper(sp); v != up {
							o.Violation("spellings", fmt.Sprintf("%q has constant form %q, want %q", sp, v, up), sp)
						}
					}
				})
				if i == 0 && sl == 0 {
					o.Sample(map[string]string{"snake": sn, "exported": cap_, "mixed": mixed})
				}
			}
		}(sl)
	}
	wg.Wait()
}

func main() {
	id := os.Args[1]
	rules := map[string]string{
		"C04": "texts: all truncations and one-byte deletions of valid schemas, all token triples after 9 openings, random bytes, token soups, valid schemas and edited ones; an independent recogniser decides acceptance and the tree. Non-trivial: more than 3 bytes.",
		"C05": "random valid schemas with documentation and tags, each rendered plainly and in three random layouts (comments, blank lines, separators, CRLF, byte-order mark); the tree's canonical form is compared with the schema's. All non-trivial.",
		"C26": "every string up to length 6 (thorough 7) over 8 symbols, random Unicode identifiers, random word lists in four spellings. Non-trivial: longer than one byte.",
	}
	r := report.New(id, rules[id])
	if worker.IsWorker() {
		worker.Main(func(o *worker.Out) {
			switch id {
			case "C04":
				c04(o, r.Seed, r.Thorough())
			case "C05":
				c05(o, r.Seed, r.Thorough())
			case "C26":
				c26(o, r.Seed, r.Thorough())
			}
		})
		return
	}
	out, _ := worker.Parent(r, 8)
	if out != "" && !r.Violated() && id == "C04" {
		r.Violation("output", fmt.Sprintf("the parser writes to its standard streams:\n%.2000s", strconv.Quote(out)), "")
	}
	r.Finish()
}
