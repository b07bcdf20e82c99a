// fescan decides C01, C02 and C03: the scanner and the position table.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"hbuf/pkg/scanner"
	"hbuf/pkg/token"

	"verif/harness/internal/model"
	"verif/harness/internal/reflex"
	"verif/harness/internal/report"
	"verif/harness/internal/texts"
	"verif/harness/internal/worker"
)

func hash(parts ...[]byte) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write(p)
		h.Write([]byte{0})
	}
	return h.Sum64()
}

type rec struct {
	kind string
	off  int
	lit  string
}

type scanRes struct {
	toks    []rec
	errs    []token.Position
	msgs    []string
	runaway bool
}

func scanAll(src []byte, comments bool) scanRes {
	fset := token.NewFileSet()
	fset.AddFile("before", -1, 7)
	f := fset.AddFile("dir/in.hbuf", -1, len(src))
	var res scanRes
	var s scanner.Scanner
	mode := scanner.Mode(0)
	if comments {
		mode = scanner.ScanComments
	}
	s.Init(f, src, func(p token.Position, m string) {
		res.errs = append(res.errs, p)
		res.msgs = append(res.msgs, m)
	}, mode)
	for n := 0; ; n++ {
		pos, tok, lit := s.Scan()
		res.toks = append(res.toks, rec{tok.String(), int(pos) - f.Base(), lit})
		if tok == token.EOF {
			break
		}
		if n > 3*len(src)+10 {
			res.runaway = true
			break
		}
	}
	// the end of file is final
	if !res.runaway {
		if _, tok, _ := s.Scan(); tok != token.EOF {
			res.toks = append(res.toks, rec{"AFTER-EOF " + tok.String(), 0, ""})
		}
	}
	if s.ErrorCount != len(res.errs) {
		res.msgs = append(res.msgs, fmt.Sprintf("ErrorCount %d, handler called %d times", s.ErrorCount, len(res.errs)))
		res.toks = append(res.toks, rec{"ERRORCOUNT", 0, ""})
	}
	return res
}

func checkScan(o *worker.Out, slot int, src []byte, class string) {
	for _, comments := range []bool{true, false} {
		want, bad := reflex.Lex(src, comments)
		nontriv := len(want) > 2
		o.Case(slot, src, hash(src, []byte{b2(comments)}), nontriv, func() {
			got := scanAll(src, comments)
			o.Count("tokens", int64(len(got.toks)))
			o.Count("inputs "+class, 1)
			o.Count("errors reported", int64(len(got.errs)))
			prev := ""
			for _, t := range got.toks {
				o.Seen("token pairs", prev+" "+t.kind)
				prev = t.kind
			}
			for i := range got.msgs {
				m := got.msgs[i]
				if k := strings.IndexAny(m, "#'U"); k > 0 {
					m = m[:k]
				}
				o.Seen("messages", m)
			}
			fail := func(key, f string, a ...any) {
				o.Violation(key, fmt.Sprintf(f, a...)+fmt.Sprintf("\ncomments=%v\ninput %q\ngot  %v\nwant %v", comments, src, got.toks, want), string(src))
			}
			if got.runaway {
				fail("runaway", "no end of file after %d tokens", len(got.toks))
				return
			}
			for i := range want {
				if i >= len(got.toks) {
					fail("stream", "token stream ends after %d tokens", i)
					return
				}
				g, w := got.toks[i], want[i]
				if g.kind != w.Kind {
					fail("kind", "token %d at %d is %s, want %s", i, g.off, g.kind, w.Kind)
					return
				}
				if g.off != w.Off {
					fail("position", "token %d (%s) at %d, want %d", i, g.kind, g.off, w.Off)
					return
				}
				lit := w.Lit
				if w.Kind == "COMMENT" {
					// text as in the source, carriage returns aside
					if strings.ReplaceAll(g.lit, "\r", "") != strings.ReplaceAll(string(src[w.Off:w.End]), "\r", "") {
						fail("text", "comment at %d reads %q", g.off, g.lit)
						return
					}
					// none is kept but where it holds a * and a / apart
					if strings.Contains(apart.ReplaceAllString(g.lit, ""), "\r") {
						fail("carriage return", "comment at %d reads %q", g.off, g.lit)
						return
					}
					if strings.HasPrefix(g.lit, "/*") && len(g.lit) > 4 && strings.Contains(g.lit[2:len(g.lit)-1], "*/") {
						fail("comment end", "comment at %d reads %q", g.off, g.lit)
						return
					}
					continue
				}
				if w.Kind == "ILLEGAL" {
					continue
				}
				if g.lit != lit && !(len(w.Kind) == 1 && w.Kind != ";" && g.lit == "") {
					fail("text", "token %d (%s) at %d reads %q, want %q", i, g.kind, g.off, g.lit, lit)
					return
				}
			}
			if len(got.toks) > len(want) {
				fail("stream", "extra token %v", got.toks[len(want)])
				return
			}
			if len(bad) == 0 && len(got.errs) > 0 && !lineDirective(src) {
				fail("false-error", "error %v %q on a legal text", got.errs[0], got.msgs[0])
				return
			}
			if len(bad) > 0 && len(got.errs) == 0 {
				fail("missed-error", "no error although offset %d is illegal", bad[0])
				return
			}
			for i, p := range got.errs {
				if p.Offset < 0 || p.Offset > len(src) || p.Line < 1 && !lineDirective(src) {
					fail("error-position", "error %q at %v, offset %d outside the source", got.msgs[i], p, p.Offset)
					return
				}
				if !lineDirective(src) {
					if p.Filename != "dir/in.hbuf" {
						fail("error-position", "error %q in file %q", got.msgs[i], p.Filename)
						return
					}
					if l, c := lineCol(src, p.Offset); (l != p.Line || c != p.Column) && p.Offset < len(src) {
						fail("error-position", "error %q at offset %d reported as %d:%d, is %d:%d", got.msgs[i], p.Offset, p.Line, p.Column, l, c)
						return
					}
				}
			}
			// every illegal construct's first error lies at or after it on... the first
			// reported error must not come after the first illegal construct's line
			if len(bad) > 0 && !lineDirective(src) {
				first := bad[0]
				for _, b := range bad {
					if b < first {
						first = b
					}
				}
				lo := got.errs[0].Offset
				for _, e := range got.errs {
					if e.Offset < lo {
						lo = e.Offset
					}
				}
				l1, _ := lineCol(src, first)
				l2, _ := lineCol(src, lo)
				if l1 != l2 {
					fail("error-position", "first error on line %d, first illegal construct on line %d", l2, l1)
					return
				}
			}
		})
	}
}

func b2(b bool) byte {
	if b {
		return 1
	}
	return 0
}

func lineDirective(src []byte) bool {
	return bytes.Contains(src, []byte("//line ")) || bytes.Contains(src, []byte("/*line "))
}

func lineCol(src []byte, off int) (int, int) {
	l := 1 + bytes.Count(src[:off], []byte("\n"))
	c := off - (bytes.LastIndexByte(src[:off], '\n') + 1) + 1
	return l, c
}

var apart = regexp.MustCompile(`\*\r+/`)

const alphabet = "a0=/*\n\"\\ [_xX`\r;<?e\xc3\xa9\x00"

// words gives every string of at most n symbols of alpha.
func words(alpha string, n int) []string {
	out := []string{""}
	for from := 0; n > 0; n-- {
		to := len(out)
		for _, w := range out[from:to] {
			for _, c := range alpha {
				out = append(out, w+string(c))
			}
		}
		from = to
	}
	return out
}

// edges gives texts at the limits of the lexical rules: all short numbers, comments
// with returns and ends in any place, escapes around every limit of their range, whole
// and cut short, and marks of byte order.
func edges(thorough bool) []string {
	var out []string
	n := 5
	if thorough {
		n = 6
	}
	for _, w := range words("0_1xb8oXBf", n-1) {
		for _, c := range []string{"0", "1", "7", "9"} {
			out = append(out, c+w)
		}
	}
	for _, w := range words("/*\r\nx", n) {
		out = append(out, "/"+w, "/*"+w, "/*"+w+"*/ x", "a /"+w+"\nb", "`\r"+w+"`")
	}
	var esc []string
	for i := 0; i < 512; i++ {
		esc = append(esc, fmt.Sprintf("%03o", i), fmt.Sprintf("x%02x", i), fmt.Sprintf("x%02X", i))
	}
	for _, v := range []uint32{0, 1, 0x7f, 0x80, 0xff, 0x7ff, 0x800, 0xd7fe, 0xd7ff, 0xd800, 0xd801, 0xdbff, 0xdc00, 0xdffe, 0xdfff, 0xe000, 0xe001, 0xfeff, 0xfffd, 0xfffe, 0xffff,
		0x10000, 0x10fffe, 0x10ffff, 0x110000, 0x110001, 0x1fffff, 0x7fffffff, 0x80000000, 0xffffffff} {
		esc = append(esc, fmt.Sprintf("u%04x", v&0xffff), fmt.Sprintf("u%04X", v&0xffff), fmt.Sprintf("U%08x", v), fmt.Sprintf("U%08X", v))
	}
	for c := 0; c < 256; c++ {
		esc = append(esc, string([]byte{byte(c)}))
	}
	for _, e := range esc {
		for i := range e {
			out = append(out, `"\`+e[:i]+`"`, `"\`+e[:i]+"g", `"\`+e[:i])
		}
		out = append(out, `"\`+e+`" x`, `"a\`+e+`\n"`, "`\\"+e+"`", `'\`+e+`'`)
	}
	for i := 0; i < 8; i++ {
		out = append(out, "abcdefgh"[:i]+"\ufeff", strings.Repeat("\n", i)+"\ufeff a", strings.Repeat("\ufeff", i)+"a", "\ufeff"+"abcdefgh"[:i]+"\ufeff")
	}
	return out
}

func c01(o *worker.Out, seed int64, thorough bool) {
	var wg sync.WaitGroup
	deadline := time.Now().Add(60 * time.Second)
	maxLen := 4
	if thorough {
		deadline = time.Now().Add(600 * time.Second)
		maxLen = 5
	}
	// exhaustive short texts, split by first symbols
	k := len(alphabet)
	var next, edge int64 = -1, -1
	es := edges(thorough)
	for sl := 0; sl < o.Slots; sl++ {
		wg.Add(1)
		go func(sl int) {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&edge, 1))
				if i >= len(es) {
					break
				}
				checkScan(o, sl, []byte(es[i]), "edge")
			}
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= k*k {
					break
				}
				pre := []byte{alphabet[i/k], alphabet[i%k]}
				var rec func(b []byte)
				rec = func(b []byte) {
					checkScan(o, sl, b, "exhaustive")
					if len(b) >= maxLen {
						return
					}
					for j := 0; j < k; j++ {
						rec(append(b[:len(b):len(b)], alphabet[j]))
					}
				}
				if i == 0 {
					checkScan(o, sl, nil, "exhaustive")
					for j := 0; j < k; j++ {
						checkScan(o, sl, []byte{alphabet[j]}, "exhaustive")
					}
				}
				rec(pre)
			}
			r := model.NewRng(seed*1000 + int64(sl))
			for n := 0; n < 12000 || thorough && time.Now().Before(deadline); n++ {
				if time.Now().After(deadline) {
					o.Count("random part cut short", 1)
					break
				}
				b, class := texts.Any(r)
				if n == 0 && sl < 2 {
					o.Sample(map[string]string{"class": class, "text": fmt.Sprintf("%.200q", b)})
				}
				checkScan(o, sl, b, class)
			}
		}(sl)
	}
	wg.Wait()
}

// ---- C02 ----

type mfile struct {
	f     *token.File
	name  string
	base  int
	src   []byte
	lines []int // model
	told  []told
}

// told is what was said of the place at off, as a line directive does.
type told struct {
	off  int
	name string
	l, c int
}

// heard gives the name, line and column of off by what was told of places up to it.
func (m *mfile) heard(off int) (string, int, int) {
	l, c := m.at(off)
	for i := len(m.told) - 1; i >= 0; i-- {
		if t := m.told[i]; t.off <= off {
			tl, _ := m.at(t.off)
			switch {
			case t.c == 0:
				c = 0
			case tl == l:
				c = t.c + off - t.off
			}
			return t.name, t.l + l - tl, c
		}
	}
	return m.name, l, c
}

func linesOf(src []byte) []int {
	var out []int
	out = append(out, 0)
	for i, b := range src {
		if b == '\n' && i+1 < len(src) {
			out = append(out, i+1)
		}
	}
	return out
}

func (m *mfile) at(off int) (int, int) {
	i := sort.Search(len(m.lines), func(i int) bool { return m.lines[i] > off }) - 1
	return i + 1, off - m.lines[i] + 1
}

func c02Case(o *worker.Out, slot int, seed int64) {
	r := model.NewRng(seed)
	var log []string
	in := func() []byte { b, _ := json.Marshal(map[string]any{"seed": seed}); return b }
	nf := r.Range(1, 6)
	o.Case(slot, in(), uint64(seed), true, func() {
		fset := token.NewFileSet()
		next := 1
		var fs []*mfile
		fail := func(key, f string, a ...any) {
			d := fmt.Sprintf(f, a...) + "\nhistory:\n" + strings.Join(log, "\n")
			for _, m := range fs {
				d += fmt.Sprintf("\nfile %s base %d size %d lines %v src %q", m.name, m.base, len(m.src), m.lines, m.src)
			}
			o.Violation(key, d, string(in()))
		}
		for i := 0; i < nf; i++ {
			src, _ := texts.Any(r)
			if len(src) > 3000 {
				src = src[:3000]
			}
			if lineDirective(src) {
				src = bytes.ReplaceAll(bytes.ReplaceAll(src, []byte("//line "), []byte("//lime ")), []byte("/*line "), []byte("/*lime "))
			}
			m := &mfile{name: fmt.Sprintf("d/%d.hbuf", i), src: src, base: -1}
			base := -1
			if r.P(0.4) {
				base = next + r.Intn(5)
			}
			m.f = fset.AddFile(m.name, base, len(src))
			m.base = m.f.Base()
			if base >= 0 && m.base != base || base < 0 && m.base != next {
				fail("base", "file %d added at base %d, got %d, next free %d", i, base, m.base, next)
				return
			}
			next = m.base + len(src) + 1
			if fset.Base() != next {
				fail("base", "table's next base is %d, want %d", fset.Base(), next)
				return
			}
			m.lines = []int{0}
			fs = append(fs, m)
			how := r.Intn(4)
			want := linesOf(src)
			switch how {
			case 0:
				var s scanner.Scanner
				s.Init(m.f, src, nil, scanner.ScanComments)
				for n := 0; n < 3*len(src)+10; n++ {
					if _, t, _ := s.Scan(); t == token.EOF {
						break
					}
				}
				m.lines = want
				log = append(log, m.name+": scanned")
			case 1:
				m.f.SetLinesForContent(src)
				m.lines = want
				if len(src) == 0 {
					// the content has no line at all
					m.f.SetLines([]int{})
					m.f.AddLine(0)
					m.lines = nil
				}
				log = append(log, m.name+": SetLinesForContent")
			case 2:
				if len(src) > 0 {
					if !m.f.SetLines(append([]int(nil), want...)) {
						fail("setlines", "%s: SetLines rejects %v", m.name, want)
						return
					}
					m.lines = want
				}
				log = append(log, m.name+": SetLines")
			default:
				for _, l := range want {
					m.f.AddLine(l)
					// a non-increasing or outside offset is ignored
					if r.P(0.3) {
						m.f.AddLine(r.Intn(l + 1))
					}
					if r.P(0.1) {
						m.f.AddLine(len(src) + r.Intn(3))
					}
				}
				m.lines = want
				log = append(log, m.name+": AddLine")
			}
			o.Seen("ways of registering lines", []string{"scan", "content", "set", "add"}[how])
			// tables that are not increasing or leave the file are refused and change nothing
			if len(want) > 1 && r.P(0.5) {
				bad := append([]int(nil), want...)
				switch r.Intn(3) {
				case 0:
					k := r.Range(1, len(bad)-1)
					bad[k] = bad[k-1]
				case 1:
					k := r.Range(1, len(bad)-1)
					bad[k-1], bad[k] = bad[k], bad[k-1]
				case 2:
					bad[len(bad)-1] = len(src) + r.Intn(2)
				}
				if m.f.SetLines(bad) {
					fail("setlines", "%s: SetLines accepts %v for size %d", m.name, bad, len(src))
					return
				}
				log = append(log, fmt.Sprint(m.name, ": SetLines refuses ", bad))
				o.Count("bad tables refused", 1)
			}
			// merging lines
			for len(m.lines) > 2 && r.P(0.3) {
				l := r.Range(1, len(m.lines)-1)
				m.f.MergeLine(l)
				m.lines = append(append([]int(nil), m.lines[:l]...), m.lines[l+1:]...)
				log = append(log, fmt.Sprint(m.name, ": MergeLine ", l))
				o.Count("lines merged", 1)
			}
			// telling of places; only what is told in order and of the file is heard
			if len(src) > 0 && r.P(0.3) {
				for off := r.Intn(len(src)); off < len(src); off += r.Range(1, len(src)) {
					t := told{off, model.Pick(r, []string{m.name, "other.x", "d/0.hbuf"}), r.Range(1, 2000), r.Intn(130)}
					if t.c == 1 && r.P(0.5) {
						m.f.AddLineInfo(off, t.name, t.l)
					} else {
						m.f.AddLineColumnInfo(off, t.name, t.l, t.c)
					}
					m.told = append(m.told, t)
					if r.P(0.3) {
						m.f.AddLineColumnInfo(r.Intn(off+1), "early", 5, 5)
					}
					if r.P(0.2) {
						m.f.AddLineColumnInfo(len(src)+r.Intn(3), "late", 5, 5)
					}
				}
				log = append(log, fmt.Sprint(m.name, ": told ", m.told))
				o.Count("places told of", int64(len(m.told)))
			}
			if m.lines != nil && m.f.LineCount() != len(m.lines) {
				fail("linecount", "%s: %d lines, want %d", m.name, m.f.LineCount(), len(m.lines))
				return
			}
			for l := 1; l <= len(m.lines); l++ {
				if int(m.f.LineStart(l)) != m.base+m.lines[l-1] {
					fail("linestart", "%s: line %d starts at %d, want %d", m.name, l, int(m.f.LineStart(l))-m.base, m.lines[l-1])
					return
				}
			}
			for _, l := range []int{0, -1, m.f.LineCount() + 1} {
				if !panics(func() { m.f.LineStart(l) }) {
					fail("linestart", "%s: LineStart(%d) of %d lines succeeds", m.name, l, m.f.LineCount())
					return
				}
			}
		}
		// resolve everything, in random file order
		order := r.Perm(len(fs))
		for k := 0; k < 2; k++ {
			for _, i := range order {
				m := fs[i]
				if m.lines == nil {
					continue
				}
				step := 1
				if len(m.src) > 600 {
					step = r.Range(1, 7)
				}
				for off := 0; off <= len(m.src); off += step {
					p := m.f.Pos(off)
					o.Count("positions resolved", 1)
					if int(p) != m.base+off || m.f.Offset(p) != off {
						fail("offset", "%s: offset %d -> pos %d -> offset %d", m.name, off, p, m.f.Offset(p))
						return
					}
					if fset.File(p) != m.f {
						fail("file", "pos %d (%s offset %d) belongs to another file", p, m.name, off)
						return
					}
					l, c := m.at(off)
					for _, q := range []token.Position{m.f.PositionFor(p, false), fset.PositionFor(p, false)} {
						if q.Filename != m.name || q.Offset != off || q.Line != l || q.Column != c {
							fail("position", "%s offset %d resolves to %v (offset %d), want %d:%d", m.name, off, q, q.Offset, l, c)
							return
						}
					}
					n, l, c := m.heard(off)
					for _, q := range []token.Position{fset.Position(p), m.f.Position(p), m.f.PositionFor(p, true), fset.PositionFor(p, true)} {
						if q.Filename != n || q.Offset != off || q.Line != l || q.Column != c {
							fail("told position", "%s offset %d resolves to %v (offset %d), want %s:%d:%d", m.name, off, q, q.Offset, n, l, c)
							return
						}
					}
					if m.f.Line(p) != l {
						fail("position", "%s offset %d: Line gives %d, want %d", m.name, off, m.f.Line(p), l)
						return
					}
					want := fmt.Sprintf("%s:%d:%d", n, l, c)
					if c == 0 {
						want = fmt.Sprintf("%s:%d", n, l)
					}
					if s := fset.Position(p).String(); s != want {
						fail("position", "position prints %q, want %s", s, want)
						return
					}
				}
				if !panics(func() { m.f.Pos(len(m.src) + 1) }) || !panics(func() { m.f.Offset(token.Pos(m.base + len(m.src) + 1)) }) || !panics(func() { m.f.Offset(token.Pos(m.base - 1)) }) {
					fail("offset", "%s: an offset outside the file is accepted", m.name)
					return
				}
			}
			r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
		}
		// positions between and outside files
		in := map[int]bool{}
		for _, m := range fs {
			for x := m.base; x <= m.base+len(m.src); x++ {
				if in[x] {
					fail("overlap", "position %d lies in two files", x)
					return
				}
				in[x] = true
			}
		}
		for x := 0; x < next+5; x++ {
			if !in[x] {
				if fset.File(token.Pos(x)) != nil || posValid(fset.Position(token.Pos(x))) {
					fail("file", "position %d outside every file resolves to %v", x, fset.Position(token.Pos(x)))
					return
				}
				o.Count("gap positions", 1)
			}
		}
		n := 0
		fset.Iterate(func(f *token.File) bool {
			if n >= len(fs) || f != fs[n].f {
				fail("iterate", "file %d of the iteration is %s", n, f.Name())
			}
			n++
			return true
		})
		if n != len(fs) {
			fail("iterate", "iteration shows %d files of %d", n, len(fs))
		}
		if !panics(func() { fset.AddFile("x", next-1, 3) }) || !panics(func() { fset.AddFile("x", -1, -1) }) {
			fail("base", "an overlapping or negative-size file is accepted")
		}
	})
}

func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

func c02(o *worker.Out, seed int64, thorough bool) {
	var wg sync.WaitGroup
	n := 3000
	if thorough {
		n = 30000
	}
	for sl := 0; sl < o.Slots; sl++ {
		wg.Add(1)
		go func(sl int) {
			defer wg.Done()
			for i := 0; i < n; i++ {
				c02Case(o, sl, seed*10000019+int64(i*o.Slots+sl))
			}
		}(sl)
	}
	wg.Wait()
	o.Sample(map[string]any{"seed": seed * 10000019, "case": "1..6 files, each registered by scanning, SetLines, SetLinesForContent or AddLine, then every offset resolved"})
}

// ---- C03 ----

// c03Case runs one shared table with several goroutines. Writers add files and
// scan them; readers resolve positions of published files and of files still
// being scanned.
func c03Case(o *worker.Out, slot int, seed int64) {
	r := model.NewRng(seed)
	in := []byte(fmt.Sprintf("seed %d", seed))
	writers, readers := r.Range(2, 5), r.Range(2, 5)
	perWriter := r.Range(2, 6)
	o.Case(slot, in, uint64(seed), true, func() {
		fset := token.NewFileSet()
		type pub struct {
			f        *token.File
			src      []byte
			lines    []int
			complete int32
		}
		var mu sync.Mutex
		var pubs []*pub
		var running int32 = int32(writers)
		var wg sync.WaitGroup
		var partial, full, misses int64
		fail := func(key, f string, a ...any) {
			o.Violation(key, fmt.Sprintf(f, a...), string(in))
		}
		guard := func() {
			if p := recover(); p != nil {
				fail("panic", "panic under concurrency: %v", p)
			}
		}
		for w := 0; w < writers; w++ {
			wg.Add(1)
			wr := r.Fork()
			go func(w int) {
				defer wg.Done()
				defer atomic.AddInt32(&running, -1)
				defer guard()
				for i := 0; i < perWriter; i++ {
					src := texts.Soup(wr, 40)
					src = bytes.ReplaceAll(bytes.ReplaceAll(src, []byte("//line "), []byte("//lime ")), []byte("/*line "), []byte("/*lime "))
					f := fset.AddFile(fmt.Sprintf("w%d-%d", w, i), -1, len(src))
					p := &pub{f: f, src: src, lines: linesOf(src)}
					mu.Lock()
					pubs = append(pubs, p)
					mu.Unlock()
					if wr.P(0.5) {
						runtime.Gosched()
					}
					if wr.P(0.3) {
						// tell of places what they are; on a table without lines yet
						// the telling is only heard
						m := mfile{lines: p.lines}
						for off := 0; off < len(src); off += wr.Range(1, 20) {
							l, c := m.at(off)
							f.AddLineColumnInfo(off, f.Name(), l, c)
							if wr.P(0.2) {
								runtime.Gosched()
							}
						}
					}
					switch wr.Intn(5) {
					case 0:
						f.SetLinesForContent(src)
						if len(src) == 0 {
							p.lines = nil
						}
					case 1:
						if ls := append([]int(nil), p.lines...); f.SetLines(ls) != (len(src) > 0) {
							fail("setlines", "SetLines says %v of the %d lines of a text of %d bytes", len(src) == 0, len(ls), len(src))
						}
					case 2:
						for _, l := range p.lines {
							f.AddLine(l)
							if wr.P(0.2) {
								runtime.Gosched()
							}
						}
					default:
						var s scanner.Scanner
						s.Init(f, src, nil, scanner.ScanComments)
						for n := 0; n < 3*len(src)+10; n++ {
							if _, t, _ := s.Scan(); t == token.EOF {
								break
							}
							if n%5 == 0 && wr.P(0.3) {
								runtime.Gosched()
							}
						}
					}
					atomic.StoreInt32(&p.complete, 1)
				}
			}(w)
		}
		for q := 0; q < readers; q++ {
			wg.Add(1)
			rr := r.Fork()
			go func() {
				defer wg.Done()
				defer guard()
				for n := 0; n < 4000 && (atomic.LoadInt32(&running) > 0 || n < 300); n++ {
					mu.Lock()
					if len(pubs) == 0 {
						mu.Unlock()
						runtime.Gosched()
						continue
					}
					p := pubs[rr.Intn(len(pubs))]
					mu.Unlock()
					comp := atomic.LoadInt32(&p.complete) == 1
					off := rr.Intn(len(p.src) + 1)
					pos := p.f.Pos(off)
					if fset.File(pos) != p.f {
						fail("file", "position of %s resolves to another file", p.f.Name())
						return
					}
					got := fset.Position(pos)
					if got.Filename != p.f.Name() || got.Offset != off {
						fail("position", "%s offset %d resolves to %v", p.f.Name(), off, got)
						return
					}
					if comp && p.lines != nil {
						m := mfile{lines: p.lines}
						l, c := m.at(off)
						if got.Line != l || got.Column != c {
							fail("position", "%s offset %d resolves to %v, want %d:%d", p.f.Name(), off, got, l, c)
							return
						}
						atomic.AddInt64(&full, 1)
					} else {
						// while lines are being added: a prefix of the true table
						n := p.f.LineCount()
						if n > len(p.lines) && p.lines != nil {
							fail("linecount", "%s shows %d lines, its text has %d", p.f.Name(), n, len(p.lines))
							return
						}
						if n > 0 && p.lines != nil && n <= len(p.lines) {
							if s := int(p.f.LineStart(n)) - p.f.Base(); s != p.lines[n-1] {
								fail("linestart", "%s line %d starts at %d, want %d", p.f.Name(), n, s, p.lines[n-1])
								return
							}
						}
						atomic.AddInt64(&partial, 1)
					}
					switch rr.Intn(8) {
					case 0:
						k := 0
						prevEnd := 0
						fset.Iterate(func(f *token.File) bool {
							if f.Base() <= prevEnd && k > 0 {
								fail("overlap", "file %s at %d overlaps the one ending at %d", f.Name(), f.Base(), prevEnd)
							}
							prevEnd = f.Base() + f.Size()
							k++
							return true
						})
					case 1:
						b := fset.Base()
						if fset.File(token.Pos(b+1000000)) != nil {
							fail("file", "a position beyond every file has a file")
						}
						atomic.AddInt64(&misses, 1)
					case 2:
						runtime.Gosched()
					}
				}
			}()
		}
		wg.Wait()
		o.Count("resolved while the file was being registered", partial)
		o.Count("resolved after completion", full)
		o.Count("files added", int64(len(pubs)))
		// the order in which the writers' files interleaved
		var ord strings.Builder
		end := 0
		fset.Iterate(func(f *token.File) bool {
			ord.WriteString(f.Name()[:2])
			if f.Base() <= end {
				fail("overlap", "file %s at %d overlaps the one ending at %d", f.Name(), f.Base(), end)
			}
			end = f.Base() + f.Size()
			return true
		})
		o.Seen("interleavings of file registration", ord.String())
		for _, p := range pubs {
			if p.lines == nil {
				continue
			}
			m := mfile{lines: p.lines}
			for off := range p.src {
				l, c := m.at(off)
				if g := fset.Position(p.f.Pos(off)); g.Line != l || g.Column != c || g.Filename != p.f.Name() {
					fail("position", "after the run %s offset %d resolves to %v, want %d:%d", p.f.Name(), off, g, l, c)
					return
				}
			}
		}
	})
}

func c03(o *worker.Out, seed int64, thorough bool) {
	deadline := time.Now().Add(40 * time.Second)
	if thorough {
		deadline = time.Now().Add(500 * time.Second)
	}
	var wg sync.WaitGroup
	for sl := 0; sl < o.Slots; sl++ {
		wg.Add(1)
		go func(sl int) {
			defer wg.Done()
			for i := 0; (thorough || i < 1500) && time.Now().Before(deadline); i++ {
				c03Case(o, sl, seed*1000003+int64(i*o.Slots+sl))
			}
		}(sl)
	}
	wg.Wait()
	o.Sample(map[string]any{"seed": seed * 1000003, "case": "2..5 writers each adding 2..6 files to one table while 2..5 readers resolve positions"})
}

func main() {
	id := os.Args[1]
	rules := map[string]string{
		"C01": "texts: every string up to length 4 (thorough 5) over a 22-symbol alphabet, random bytes, soups of token fragments, valid schemas in random layouts, and edited ones; each scanned with and without comments and compared with an independent lexer. Non-trivial: more than one token besides end of file.",
		"C02": "histories of 1..6 files in one table with random bases, lines registered by scanner, SetLines, SetLinesForContent or AddLine (bad ones included), merges, then every offset resolved and compared with a model. Every history is non-trivial.",
		"C03": "concurrent histories on one shared table under the race detector: writers add and scan files, readers resolve positions of finished and unfinished files. Every history is non-trivial.",
	}
	r := report.New(id, rules[id])
	if worker.IsWorker() {
		worker.Main(func(o *worker.Out) {
			switch id {
			case "C01":
				c01(o, r.Seed, r.Thorough())
			case "C02":
				c02(o, r.Seed, r.Thorough())
			case "C03":
				c03(o, r.Seed, r.Thorough())
			}
		})
		return
	}
	slots := 8
	if id == "C03" {
		slots = 4
	}
	worker.Parent(r, slots, "GORACE=halt_on_error=1")
	r.Finish()
}

func posValid(p token.Position) bool { return p.IsValid() }
