package main

import (
	"fmt"
	"math/rand"
	"strings"
	"time"

	"verif/harness/internal/cli"
	"verif/harness/internal/model"
	"verif/harness/internal/report"
)

func init() { checks["C36"] = c36 }

const (
	cpuLimit = 15 * time.Second
	memLimit = 1 << 30
)

// family gives source sets of one shape, whose size is about proportional to n.
type family struct {
	name string
	n    int
	gen  func(rng *model.Rng, n int) map[string]string
	bad  int // 0: accepted, 1: rejected, 2: either
}

const scaleHead = "package go = \"x\"\npackage java = \"x\"\n"

// decorated is a tag for a member, or none.
func decorated(rng *model.Rng, f string) string {
	return model.Pick(rng, []string{"", "\t[lang: zh=\"" + f + "\"; en=\"" + f + "\"]\n", "\t[ui: form=\"true\"; table=\"true\"]\n", "\t[verify: format=\"Fm.a\"]\n", "\t[db: name=\"" + f + "\"]\n", "\t// doc " + f + "\n"})
}

const scaleFormats = "enum Fm {\n\t[format: min=\"1\"; max=\"5\"]\n\ta = 0\n}\n"

// dag is a graph of inheritance: every vertex lists earlier ones.
func dag(rng *model.Rng, n int) (g [][]int) {
	shape := rng.Intn(4)
	for i := 0; i < n; i++ {
		var b []int
		switch {
		case i == 0:
		case shape == 0 || i < 4: // a chain
			b = []int{i - 1}
		case shape == 1: // a ladder of diamonds
			if i%3 == 0 {
				b = []int{i - 2, i - 1}
			} else {
				b = []int{i - i%3}
			}
			if i%3 == 1 {
				b = []int{i - 1}
			}
			if i%3 == 2 {
				b = []int{i - 2}
			}
		case shape == 2: // the last k
			for k := 1; k <= 3 && k <= i; k++ {
				b = append(b, i-k)
			}
		default:
			for _, k := range rng.Perm(i)[:rng.Range(1, 3)] {
				b = append(b, k)
			}
		}
		g = append(g, b)
	}
	return
}

// spread puts declarations into files, each importing what it uses; uses lists earlier declarations.
func spread(rng *model.Rng, n int, decl func(i int) string, uses func(i int) []int) map[string]string {
	out := map[string]string{}
	if rng.P(0.5) {
		var b strings.Builder
		b.WriteString(scaleHead + scaleFormats)
		for _, i := range rng.Perm(n) {
			b.WriteString(decl(i))
		}
		out["a.hbuf"] = b.String()
		return out
	}
	out["fm.hbuf"] = scaleHead + scaleFormats
	for i := 0; i < n; i++ {
		s := scaleHead + "import \"fm.hbuf\"\n"
		seen := map[int]bool{i: true}
		for _, k := range uses(i) {
			if !seen[k] {
				seen[k] = true
				s += fmt.Sprintf("import \"f%d.hbuf\"\n", k)
			}
		}
		out[fmt.Sprintf("f%d.hbuf", i)] = s + decl(i)
	}
	return out
}

// boundBases binds a method of some base to one of data with many bases.
func boundBases(rng *model.Rng, n int, base string) map[string]string {
	g := dag(rng, n)
	s := scaleHead + "data Base {\n}\n"
	for i := range g {
		s += exts(fmt.Sprintf("data D%d", i), "D", g[i]) + "}\n"
	}
	s += fmt.Sprintf("data Full : D%d = 1%s {\n}\n", n-1, base)
	m := model.Pick(rng, []string{"void m(% q)", "% m(% q)"})
	return map[string]string{"a.hbuf": s + "server S {\n\t" + strings.ReplaceAll(m, "%", "Base") + " = 0\n}\nserver T {\n\t[bind: value=\"S.m\"]\n\t" + strings.ReplaceAll(m, "%", "Full") + " = 0\n}\n"}
}

func exts(kind, name string, bases []int) string {
	var b []string
	for k, x := range bases {
		b = append(b, fmt.Sprintf("%s%d = %d", name, x, k+1))
	}
	s := kind
	if len(b) > 0 {
		s += " : " + strings.Join(b, ", ")
	}
	return s + " {\n"
}

var families = []family{
	{name: "inherited data", n: 80, gen: func(rng *model.Rng, n int) map[string]string {
		g := dag(rng, n)
		tagged := rng.P(0.5)
		return spread(rng, n, func(i int) string {
			s := exts(fmt.Sprintf("data D%d", i), "D", g[i])
			for k := 0; k < 2; k++ {
				f := fmt.Sprintf("f%d_%d", i, k)
				if tagged {
					s += decorated(rng, f)
				}
				s += fmt.Sprintf("\tint32 %s = %d\n", f, k)
			}
			return s + "}\n"
		}, func(i int) []int { return g[i] })
	}},
	{name: "inherited servers", n: 80, gen: func(rng *model.Rng, n int) map[string]string {
		g := dag(rng, n)
		m := spread(rng, n, func(i int) string {
			return exts(fmt.Sprintf("server S%d", i), "S", g[i]) + fmt.Sprintf("\tvoid m%d(Fq q) = 0\n}\n", i)
		}, func(i int) []int { return g[i] })
		for k, v := range m {
			m[k] = strings.Replace(v, scaleFormats, "data Fq {\n}\n"+scaleFormats, 1)
		}
		return m
	}},
	{name: "data in data", n: 80, gen: func(rng *model.Rng, n int) map[string]string {
		g := dag(rng, n)
		wrap := model.Pick(rng, []string{"D%d", "D%d?", "D%d[]", "D%d<string>", "D%d?[]?"})
		return spread(rng, n, func(i int) string {
			s := fmt.Sprintf("data D%d {\n", i)
			for k, b := range g[i] {
				s += decorated(rng, "x") + fmt.Sprintf("\t"+wrap+" x%d = %d\n", b, k, k)
			}
			return s + "}\n"
		}, func(i int) []int { return g[i] })
	}},
	{name: "all data in all", n: 40, gen: func(rng *model.Rng, n int) map[string]string {
		var all []int
		for i := 0; i < n; i++ {
			all = append(all, i)
		}
		return spread(rng, n, func(i int) string {
			s := fmt.Sprintf("data D%d {\n", i)
			for k := range all {
				s += fmt.Sprintf("\tD%d? x%d = %d\n", k, k, k)
			}
			return s + "}\n"
		}, func(i int) []int { return all })
	}},
	{name: "imports", n: 100, gen: func(rng *model.Rng, n int) map[string]string {
		m := map[string]string{}
		all := rng.P(0.3)
		g := dag(rng, n)
		for i := 0; i < n; i++ {
			s := scaleHead
			if all {
				for k := 0; k < n; k++ {
					if k != i {
						s += fmt.Sprintf("import \"f%d.hbuf\"\n", k)
					}
				}
			} else {
				for _, k := range g[i] {
					s += fmt.Sprintf("import \"f%d.hbuf\"\n", k)
				}
			}
			m[fmt.Sprintf("f%d.hbuf", i)] = s + fmt.Sprintf("data D%d {\n\tint32 x = 0\n}\n", i)
		}
		return m
	}},
	{name: "bound methods", n: 200, gen: func(rng *model.Rng, n int) map[string]string {
		s := scaleHead + "data Fq {\n}\nserver S0 {\n\tvoid m(Fq q) = 0\n}\n"
		for i := 1; i < n; i++ {
			s += fmt.Sprintf("server S%d {\n\t[bind: value=\"S%d.m\"]\n\tvoid m(Fq q) = 0\n}\n", i, i-1)
		}
		return map[string]string{"a.hbuf": s}
	}},
	{name: "bases of bound data", n: 80, gen: func(rng *model.Rng, n int) map[string]string { return boundBases(rng, n, ", Base = 2") }},
	{name: "items", n: 2500, gen: func(rng *model.Rng, n int) map[string]string {
		s := scaleHead + "enum E {\n"
		for i := 0; i < n; i++ {
			s += decorated(&model.Rng{Rand: rand.New(rand.NewSource(int64(i % 2 * 5)))}, "x")
			s += fmt.Sprintf("\titem%d = %d\n", i, i)
		}
		s = strings.ReplaceAll(s, "\t[verify: format=\"Fm.a\"]\n", "")
		return map[string]string{"a.hbuf": s + "}\ndata D {\n\tE e = 0\n\tE<E> m = 1\n}\n"}
	}},
	{name: "members", n: 1500, gen: func(rng *model.Rng, n int) map[string]string {
		s := scaleHead + scaleFormats + "data D {\n"
		for i := 0; i < n; i++ {
			s += strings.Replace(decorated(rng, fmt.Sprint("f", i)), "verify: format", "x: y", 1) + "\t" + model.Pick(rng, []string{"int32", "int64?", "date", "decimal", "string[]", "D?", "Fm", "double<string>", "uint8?[]?"}) + fmt.Sprintf(" f%d = %d\n", i, i)
		}
		return map[string]string{"a.hbuf": s + "}\n"}
	}},
	{name: "methods", n: 1500, gen: func(rng *model.Rng, n int) map[string]string {
		s := scaleHead + "data Fq {\n}\nserver S {\n"
		for i := 0; i < n; i++ {
			s += fmt.Sprintf("\t%s m%d(Fq q) = %d\n", model.Pick(rng, []string{"void", "Fq"}), i, i)
		}
		return map[string]string{"a.hbuf": s + "}\nserver T : S = 1 {\n}\n"}
	}},
	{name: "declarations", n: 1000, gen: func(rng *model.Rng, n int) map[string]string {
		return spread(rng, n, func(i int) string {
			switch rng.Intn(3) {
			case 0:
				return fmt.Sprintf("enum E%d {\n\ta = 0\n}\n", i)
			case 1:
				return fmt.Sprintf("data D%d {\n\tint32 a = 0\n}\n", i)
			}
			return fmt.Sprintf("server S%d {\n}\n", i)
		}, func(i int) []int { return nil })
	}},
	{name: "formats", n: 150, gen: func(rng *model.Rng, n int) map[string]string {
		s := scaleHead + "enum Fm {\n"
		var all []string
		for i := 0; i < n; i++ {
			s += fmt.Sprintf("\t[format: min=\"%d\"; max=\"%d\"]\n\ta%d = %d\n", i, 10*i, i, i)
			all = append(all, fmt.Sprintf("\"Fm.a%d\"", i))
		}
		s += "}\ndata D {\n"
		for i := 0; i < 10; i++ {
			s += "\t[verify: format=" + strings.Join(all, ",") + fmt.Sprintf("]\n\tint32 f%d = %d\n", i, i)
		}
		return map[string]string{"a.hbuf": s + "}\n"}
	}},
	{name: "columns", n: 100, gen: func(rng *model.Rng, n int) map[string]string {
		s := scaleHead + "[db: name=\"t\"]\ndata T {\n\t[db: key=\"self\"]\n\tint64 id = 0\n"
		for i := 1; i < n; i++ {
			s += fmt.Sprintf("\t[db: name=\"c%d\"]\n\tstring c%d = %d\n", i, i, i)
		}
		s += "}\n[db: table=\"T\"; find=\"self\"; list=\"self\"]\ndata Q {\n"
		for i := 1; i < n; i++ {
			s += fmt.Sprintf("\t[db: where=\"AND c%d = ?{c%d}\"]\n\tstring c%d = %d\n", i, i, i, i)
		}
		return map[string]string{"a.hbuf": s + "}\n"}
	}},
	{name: "text", n: 1_000_000, gen: func(rng *model.Rng, n int) map[string]string {
		s := model.Pick(rng, []string{
			"// " + strings.Repeat("x", n) + "\n", strings.Repeat("// x\n", n/5), "/*" + strings.Repeat("*", n) + "*/\n", "/*" + strings.Repeat("\n *", n/3) + "*/\n",
			strings.Repeat("\n", n), strings.Repeat(" ", n), strings.Repeat("\t\r\n", n/3), strings.Repeat("/**/", n/4), strings.Repeat("/**/\n", n/5),
		})
		return map[string]string{"a.hbuf": scaleHead + s + "data D {\n" + s + "\tint32 a = 0\n" + s + "}\n"}
	}},
	{name: "names", n: 20_000, gen: func(rng *model.Rng, n int) map[string]string {
		x := func() string {
			w := model.Pick(rng, []string{"x", "aB", "A_b", "A", "a1"})
			return model.Pick(rng, []string{"Q", "q"}) + strings.Repeat(w, n/len(w))
		}
		a, b, c := x()+"1", x()+"2", x()+"3"
		return map[string]string{"a.hbuf": scaleHead + "data " + a + " {\n\tint32 " + x() + " = 0\n}\nenum " + b + " {\n\t" + x() + " = 0\n}\nserver " + c + " {\n\t" + a + " " + x() + "(" + a + " " + x() + ") = 0\n}\n"}
	}},
	{name: "tags", n: 800, gen: func(rng *model.Rng, n int) map[string]string {
		s := scaleHead + "data D {\n"
		switch rng.Intn(3) {
		case 0:
			for i := 0; i < n; i++ {
				s += fmt.Sprintf("\t[tag%d: a=\"x\"]\n", i)
			}
		case 1:
			s += "\t[lang: "
			for i := 0; i < n; i++ {
				s += fmt.Sprintf("l%d=\"x\"; ", i)
			}
			s += "en=\"e\"]\n"
		default:
			s += "\t[x: en=\"e\"" + strings.Repeat(",\"e\"", n) + "]\n"
		}
		return map[string]string{"a.hbuf": s + "\tint32 a = 0\n}\n"}
	}},
	{name: "cycle of data", n: 80, bad: 1, gen: func(rng *model.Rng, n int) map[string]string {
		g := dag(rng, n)
		g[0] = []int{n - 1}
		return spread(rng, n, func(i int) string { return exts(fmt.Sprintf("data D%d", i), "D", g[i]) + "}\n" }, func(i int) []int { return g[i] })
	}},
	{name: "cycle of servers", n: 80, bad: 1, gen: func(rng *model.Rng, n int) map[string]string {
		g := dag(rng, n)
		g[0] = []int{n - 1}
		return spread(rng, n, func(i int) string { return exts(fmt.Sprintf("server D%d", i), "D", g[i]) + "}\n" }, func(i int) []int { return g[i] })
	}},
	{name: "no base of bound data", n: 80, bad: 1, gen: func(rng *model.Rng, n int) map[string]string { return boundBases(rng, n, "") }},
	{name: "ring of bound methods", n: 60, bad: 2, gen: func(rng *model.Rng, n int) map[string]string {
		s := scaleHead + "data Fq {\n}\n"
		for i := 0; i < n; i++ {
			s += fmt.Sprintf("server S%d {\n\t[bind: value=\"S%d.m\"]\n\tvoid m(Fq q) = 0\n}\n", i, (i+1)%n)
		}
		return map[string]string{"a.hbuf": s}
	}},
	{name: "data that never ends", n: 60, bad: 2, gen: func(rng *model.Rng, n int) map[string]string {
		s := scaleHead
		for i := 0; i < n; i++ {
			s += fmt.Sprintf("data D%d {\n\tD%d a = 0\n\tD%d b = 1\n}\n", i, (i+1)%n, (i+2)%n)
		}
		return map[string]string{"a.hbuf": s}
	}},
	{name: "syntax errors", n: 2000, bad: 1, gen: func(rng *model.Rng, n int) map[string]string {
		s := model.Pick(rng, []string{"data\n", "data {\n", "data D {\n", "}\n", "[", "\"\n", "int32 x = 0\n", "enum E { a = \n", "server S { x y(\n", "import\n", "x: ", "a<", "\x00", "data D : "})
		return map[string]string{"a.hbuf": scaleHead + strings.Repeat(s, n)}
	}},
	{name: "unknown types", n: 500, bad: 1, gen: func(rng *model.Rng, n int) map[string]string {
		s := scaleHead
		for i := 0; i < n; i++ {
			s += fmt.Sprintf("data D%d {\n\tNone%d a = 0\n}\n", i, i)
		}
		return map[string]string{"a.hbuf": s}
	}},
}

// c36: compiling takes time and memory in proportion.
func c36() {
	r := report.New("C36", "source sets of one of many shapes (graphs of inheritance, of members and of imports; long lists of members, items, methods, declarations, tags, formats and columns; long texts and names; defects at the end of long chains) at and below sizes far beyond any a person writes, compiled for a random target under limits of processor time, memory and output size; non-trivial: the set has the family's full size")
	bin := cli.Build(r)
	dl := r.Budget(60*time.Second, 10*time.Minute)
	cli.Parallel(8, r.N(700, 20000), dl, func(i int) {
		rng := model.NewRng(r.Seed*47_000_009 + int64(i))
		f := families[i%len(families)]
		n := f.n
		if rng.P(0.3) {
			n = rng.Range(n/4, n)
		}
		src := f.gen(rng, n)
		t := targets[(i/len(families))%len(targets)]
		size := 0
		for _, v := range src {
			size += len(v)
		}
		dir := cli.Dir()
		defer cli.Drop(dir)
		cli.Write(dir+"/in", src)
		x := cli.Exec(60*time.Second, dir, nil, "bash", "-c", `ulimit -t 20 -f 100000 -v 6000000; exec "$@"`, "hbuf", bin, "-i", dir+"/in/*.hbuf", "-o", dir+"/out", "-t", t, "-p", "gen/")
		r.Count("runs", 1)
		r.Count("bytes of source", int64(size))
		r.Case(fmt.Sprint(f.name, i), n == f.n)
		r.Seen("families and targets", f.name+" "+t)
		outs := 0
		for _, v := range cli.Tree(dir + "/out") {
			outs += len(v)
		}
		r.Count("bytes of output", int64(outs))
		r.Max("processor time, ms", x.CPU.Milliseconds())
		r.Max("memory, MB", x.RSS>>20)
		r.Max("processor time of "+f.name+", ms", x.CPU.Milliseconds())
		at := fmt.Sprintf("%s (%d, %d files, %d bytes), -t %s: ", f.name, n, len(src), size, t)
		show := cli.Show(src)
		if len(show) > 4000 {
			show = show[:4000] + "\n…"
		}
		switch {
		case x.Hung || x.CPU > cpuLimit:
			r.Violation("time "+f.name+" "+t, at+fmt.Sprintf("%v of processor time, finished: %v", x.CPU, !x.Hung && x.Code >= 0), show)
		case x.RSS > memLimit:
			r.Violation("memory "+f.name+" "+t, at+fmt.Sprintf("%d MB of memory", x.RSS>>20), show)
		case outs > 100*size+1<<22:
			r.Violation("output "+f.name+" "+t, at+fmt.Sprintf("%d bytes of output", outs), show)
		case x.Crashed() || x.Code < 0:
			r.Violation("crash "+f.name+" "+t, at+fmt.Sprintf("exit status %d: %.2000s", x.Code, x.Out), show)
		case f.bad < 2 && (x.Code != 0) != (f.bad == 1):
			r.Violation("status "+f.name+" "+t, at+fmt.Sprintf("exit status %d: %.2000s", x.Code, x.Out), show)
		}
		if i < 3 {
			r.Sample(map[string]any{"family": f.name, "n": n, "target": t, "cpu_ms": x.CPU.Milliseconds(), "output bytes": outs})
		}
	})
	r.Finish()
}
