package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"verif/harness/internal/cli"
	"verif/harness/internal/gows"
	"verif/harness/internal/javaws"
	"verif/harness/internal/model"
	"verif/harness/internal/report"
	"verif/harness/internal/tsws"
)

func init() {
	checks["C14"] = c14
}

// allOpts are schemas whose names are legal and distinct in every language.
var allOpts = model.Opts{Files: 4, Decls: 7, Servers: true, Subdirs: true, Packages: true, JavaPkgs: true, Docs: true, TypeCase: true, Override: true, Diamond: true, HexIds: true, NoZero: true, Mutual: true, EmptyEnum: true}

// langs holds the same schemas compiled for several languages.
type langs struct {
	g *gows.Batch
	t *tsws.Batch
	j *javaws.Batch
	d *dartBatch
}

// each calls f for the schemas that compiled in a language.
func (l *langs) drop() {
	l.g.Drop()
	l.t.Drop()
	l.j.Drop()
	l.d.Drop()
}

// allRun generates schemas, compiles them for every language and hands them to f.
func allRun(r *report.Run, quick, thorough, per int, o model.Opts, prep func(*model.Rng, *model.Schema), f func(l *langs, rng *model.Rng)) {
	bin := cli.Build(r)
	dl := r.Budget(100*time.Second, 12*time.Minute)
	for n := 0; n < r.N(quick, thorough) && time.Now().Before(dl); n++ {
		l := &langs{g: gows.New(r, bin), t: tsws.New(r, bin), j: javaws.New(r, bin), d: newDart(r, bin)}
		for i := 0; i < per; i++ {
			rng := model.NewRng(r.Seed*31_000_003 + int64(n*1000+i))
			s := model.GenSchema(rng, o)
			if prep != nil {
				prep(rng, s)
			}
			l.j.Add(s, nil) // it renames the Java packages, so that it comes first
			src := s.Sources(nil)
			l.g.Add(s, src)
			l.t.Add(s, src)
			l.d.Add(s, src)
		}
		done := make(chan bool, 4)
		go func() { l.g.Compile(); done <- true }()
		go func() { l.t.Compile(); done <- true }()
		go func() { l.j.Compile(); done <- true }()
		go func() { l.d.Compile(); done <- true }()
		for i := 0; i < 4; i++ {
			<-done
		}
		l.g.Report()
		l.t.Report()
		l.j.Report()
		l.d.Report()
		r.Count("schemas compiled (Go)", int64(len(l.g.Good())))
		r.Count("schemas compiled (TypeScript)", int64(len(l.t.Good())))
		r.Count("schemas compiled (Java)", int64(len(l.j.Good())))
		r.Count("schemas loaded (Dart)", int64(len(l.d.Good())))
		f(l, model.NewRng(r.Seed*37_000_003+int64(n)))
		l.drop()
	}
	r.Finish()
}

// enumProbe gives numbers and texts to look up: all of the enum's, and others near them.
func enumProbe(rng *model.Rng, e *model.Enum, spell func(string) string) (nums []int, texts []string) {
	seen := map[int]bool{}
	num := func(n int) {
		if !seen[n] && n >= -1<<31 && n < 1<<31 {
			seen[n] = true
			nums = append(nums, n)
		}
	}
	text := map[string]bool{}
	str := func(s string) {
		if !text[s] {
			text[s] = true
			texts = append(texts, s)
		}
	}
	for _, it := range e.Items {
		for _, d := range []int{0, 1, -1, 256, 65536} {
			num(it.Value + d)
		}
		num(-it.Value)
		s := spell(it.Name)
		for _, x := range []string{s, s + " ", strings.ToLower(s), strings.ToUpper(s), s + "x", it.Name} {
			str(x)
		}
	}
	for _, n := range []int{0, -1, 1, 1<<31 - 1, -1 << 31, rng.Intn(1 << 20)} {
		num(n)
	}
	for _, x := range []string{"", "null", "value", "values", "name", "toString", e.Name} {
		str(x)
	}
	return
}

// lookups judges look-ups in both directions, answers being [value, name, own] or nil.
func lookups(r *report.Run, e *model.Enum, spell func(string) string, nums []int, texts []string, val func(i int) []any, nam func(i int) []any) (string, string) {
	for i, n := range nums {
		got := val(i)
		r.Count("look-ups", 1)
		var want *model.Item
		for _, it := range e.Items {
			if it.Value == n {
				want = it
			}
		}
		switch {
		case want == nil && got == nil:
		case want == nil:
			return "value-outside", fmt.Sprintf("%d is no value of %s, but gives %v", n, e.Name, got)
		case got == nil || fmt.Sprint(got[0]) != fmt.Sprint(n) || got[1] != spell(want.Name) || got[2] != true:
			return "value", fmt.Sprintf("%d gives %v, want %s", n, got, spell(want.Name))
		}
	}
	for i, s := range texts {
		got := nam(i)
		r.Count("look-ups", 1)
		var want *model.Item
		for _, it := range e.Items {
			if spell(it.Name) == s {
				want = it
			}
		}
		switch {
		case want == nil && got == nil:
		case want == nil:
			return "name-outside", fmt.Sprintf("%q is no name of %s, but gives %v", s, e.Name, got)
		case got == nil || fmt.Sprint(got[0]) != fmt.Sprint(want.Value) || got[1] != s || got[2] != true:
			return "name", fmt.Sprintf("%q gives %v, want %d", s, got, want.Value)
		}
	}
	return "", ""
}

// tables judges the constants, by their names in code, and the list of values.
func enumTables(e *model.Enum, constant, spell func(string) string, consts map[string]any, list []any) (string, string) {
	want := map[string]string{}
	var order []string
	for _, it := range e.Items {
		p := fmt.Sprint(it.Value, " ", spell(it.Name))
		want[constant(it.Name)] = p
		order = append(order, p)
	}
	pair := func(x any) string {
		l, _ := x.([]any)
		if len(l) < 2 {
			return fmt.Sprint(x)
		}
		return fmt.Sprint(l[0], " ", l[1])
	}
	for k, p := range want {
		if pair(consts[k]) != p {
			return "constants", fmt.Sprintf("constant %s is %s, want %s", k, pair(consts[k]), p)
		}
	}
	if len(consts) != len(want) {
		return "constants", fmt.Sprintf("constants %v, want %v", consts, want)
	}
	if list != nil {
		var got []string
		for _, x := range list {
			got = append(got, pair(x))
		}
		if strings.Join(got, ",") != strings.Join(order, ",") {
			return "list", fmt.Sprintf("the list of values is %v, want %v", got, order)
		}
	}
	return "", ""
}

func look(x any) []any {
	m := asMap(x)
	if m == nil || m["none"] != nil {
		return nil
	}
	return []any{m["value"], m["name"], m["same"]}
}

func asInt(x any) int64 {
	n, _ := x.(json.Number)
	k, _ := n.Int64()
	return k
}

func c14() {
	r := report.New("C14", "an enum of a random valid schema set whose generated Go, TypeScript, Java and Dart tables are read and looked up by every declared, neighbouring and odd number and name; non-trivial: the enum has at least two items")
	o := allOpts
	o.MoreEnums = true
	allRun(r, 5, 60, 50, o, func(rng *model.Rng, s *model.Schema) {
		if rng.P(0.3) {
			model.AddTags(rng, s)
		}
		if rng.P(0.5) {
			model.AddDomainTags(rng, s, model.Domain{Lang: true, UI: rng.P(0.5)})
		}
		for _, e := range s.Enums() {
			var sig []string
			for _, it := range e.Items {
				sig = append(sig, it.Name+"="+it.Id)
			}
			r.Case(e.Name+" "+strings.Join(sig, " "), len(e.Items) > 1)
			r.Count("items", int64(len(e.Items)))
		}
	}, func(l *langs, rng *model.Rng) {
		var gs []*todo
		for _, c := range l.g.Good() {
			for _, e := range c.S.Enums() {
				nums, _ := enumProbe(rng, e, model.Hump)
				gs = append(gs, &todo{c: c, what: "enum " + e.Name, op: &gows.Op{Op: "enum", T: c.Enum(e), Nums: nums}, f: func(res gows.Res) (string, string) {
					r.Count("enums read (Go)", 1)
					if res["err"] != nil {
						return "go-pointer", fmt.Sprint(res["err"])
					}
					names, values := asMap(res["names"]), asMap(res["values"])
					cs := map[string]any{}
					for k, v := range asMap(res["consts"]) {
						cs[k] = []any{v, model.Hump(k)}
					}
					same := func(s string) string { return s }
					if k, d := enumTables(e, same, model.Hump, cs, nil); k != "" {
						return "go-" + k, d
					}
					vs := map[string]any{}
					var texts []string
					for k, v := range values {
						vs[k] = []any{v, k}
						texts = append(texts, k)
					}
					if k, d := enumTables(e, model.Hump, model.Hump, vs, nil); k != "" {
						return "go-values-" + k, d
					}
					k, d := lookups(r, e, model.Hump, nums, texts, func(i int) []any {
						if n := names[fmt.Sprint(nums[i])]; n != "" && n != nil {
							return []any{nums[i], n, true}
						}
						return nil
					}, func(i int) []any { return []any{values[texts[i]], texts[i], true} })
					if k != "" {
						k = "go-" + k
					}
					return k, d
				}})
			}
		}
		perform(r, l.g, gs)
		judge := func(lang string, e *model.Enum, constant, spell func(string) string, nums []int, texts []string) func(res map[string]any) (string, string) {
			return func(res map[string]any) (string, string) {
				r.Count("enums read ("+lang+")", 1)
				list, _ := res["list"].([]any)
				if list == nil {
					list = []any{}
				}
				if k, d := enumTables(e, constant, spell, asMap(res["consts"]), list); k != "" {
					return lang + "-" + k, d
				}
				vs, _ := res["values"].([]any)
				ns, _ := res["names"].([]any)
				if len(vs) != len(nums) || len(ns) != len(texts) {
					return "misfit", "wrong number of answers"
				}
				if k, d := lookups(r, e, spell, nums, texts, func(i int) []any { return look(vs[i]) }, func(i int) []any { return look(ns[i]) }); k != "" {
					return lang + "-" + k, d
				}
				if eq, ok := res["eq"]; ok && eq != true {
					return lang + "-equality", "values of the enum are equal to others, or not to themselves"
				}
				return "", ""
			}
		}
		var ts []*tsTodo
		for _, c := range l.t.Good() {
			for _, e := range c.S.Enums() {
				nums, texts := enumProbe(rng, e, model.Hump)
				ts = append(ts, &tsTodo{c: c, what: "enum " + e.Name, op: tsws.Op{"op": "enum", "t": c.Enum(e), "nums": nums, "texts": texts}, f: judge("ts", e, model.AllUpper, model.Hump, nums, texts)})
			}
		}
		tsPerform(r, l.t, ts)
		var js []*javaTodo
		for _, c := range l.j.Good() {
			for _, e := range c.S.Enums() {
				nums, texts := enumProbe(rng, e, model.AllUpper)
				js = append(js, &javaTodo{c: c, what: "enum " + e.Name, op: javaws.Op{"op": "enum", "t": c.Enum(e), "nums": nums, "texts": texts}, f: judge("tables", e, model.AllUpper, model.AllUpper, nums, texts)})
			}
		}
		javaPerform(r, l.j, js)
		dartEnums(r, l.d, rng, judge)
	})
}
