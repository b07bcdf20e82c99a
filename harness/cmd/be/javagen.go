package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	"verif/harness/internal/cli"
	"verif/harness/internal/javaws"
	"verif/harness/internal/model"
	"verif/harness/internal/report"
)

func init() {
	checks["C28"] = c28
}

// javaOpts are schemas whose names are legal and distinct in Java.
var javaOpts = model.Opts{Files: 4, Decls: 7, Servers: true, Subdirs: true, Packages: true, NoPkg: true, JavaPkgs: true, Docs: true, TypeCase: true, Override: true, Diamond: true, HexIds: true, NoZero: true, Mutual: true, EmptyEnum: true,
	MapKeys: []string{model.Int8, model.Int16, model.Int32, model.Int64, model.Uint8, model.Uint16, model.Uint32, model.Uint64, model.String, model.Bool, model.Date, model.Decimal}}

// javaTodo is an operation with what judges its result.
type javaTodo struct {
	c    *javaws.Case
	op   javaws.Op
	what string
	f    func(res map[string]any) (key, detail string)
}

// javaPerform runs operations and reports the verdicts.
func javaPerform(r *report.Run, b *javaws.Batch, ts []*javaTodo) {
	ops := make([]javaws.Op, len(ts))
	for i, t := range ts {
		ops[i] = t.op
	}
	for i, res := range b.Run(ops) {
		t := ts[i]
		key, detail := "", ""
		switch {
		case res == nil:
			key, detail = "driver-answer", "no answer"
		case res["panic"] != nil:
			key, detail = "panic", fmt.Sprint(res["panic"], "\n", res["stack"])
		case res["misfit"] != nil:
			key, detail = "misfit", fmt.Sprint(res["misfit"])
		default:
			key, detail = t.f(res)
		}
		sample(r, i, t.what, t.op, res)
		if key != "" {
			in, _ := json.MarshalIndent(t.op, "", " ")
			out, _ := json.MarshalIndent(res, "", " ")
			r.Violation("java-"+key, t.what+": "+detail, t.c.Replay(fmt.Sprintf("%s\n%s\noperation %s\nobserved %s", t.what, detail, in, out)))
		}
	}
}

// javaRun generates and compiles batches of schemas and hands each to f.
func javaRun(r *report.Run, bin string, dl time.Time, n, per int, o model.Opts, prep func(*model.Rng, *model.Schema), f func(b *javaws.Batch, rng *model.Rng)) {
	b := javaws.New(r, bin)
	for i := 0; i < per; i++ {
		rng := model.NewRng(r.Seed*23_000_003 + int64(n*1000+i))
		s := model.GenSchema(rng, o)
		if prep != nil {
			prep(rng, s)
		}
		b.Add(s, nil)
	}
	b.Compile()
	b.Report()
	r.Count("schemas compiled", int64(len(b.Good())))
	f(b, model.NewRng(r.Seed*29_000_003+int64(n)))
	b.Drop()
}

func c28() {
	r := report.New("C28", "a random valid schema set (inheritance, several files and packages, tags) whose Java output is compiled together with statements about every member and method, or an inventory or a value of a type of it; non-trivial: at least two files or eight declarations")
	bin := cli.Build(r)
	dl := r.Budget(100*time.Second, 10*time.Minute)
	for n := 0; n < r.N(5, 100) && time.Now().Before(dl); n++ {
		javaRun(r, bin, dl, n, 60, javaOpts, func(rng *model.Rng, s *model.Schema) {
			if rng.P(0.3) {
				model.AddTags(rng, s)
			}
			if rng.P(0.5) {
				model.AddDomainTags(rng, s, model.DomainAny)
			}
			nd := 0
			for _, f := range s.Files {
				nd += len(f.Decls)
			}
			r.Case(cli.Hash(s.Sources(nil)), len(s.Files) > 1 || nd >= 8)
			r.Count("declarations", int64(nd))
		}, func(b *javaws.Batch, rng *model.Rng) {
			var ts []*javaTodo
			for _, c := range b.Good() {
				for _, d := range c.S.Datas() {
					ts = append(ts, javaData(r, c, d))
					for k := 0; k < 2 && !needsEmpty(d, map[*model.Data]bool{}); k++ {
						ts = append(ts, javaCopy(r, c, d, rng.DataVal(d, 3), rng.DataVal(d, 2)))
					}
				}
				for _, s := range c.S.Servers() {
					ts = append(ts, javaServer(r, c, s))
				}
			}
			javaPerform(r, b, ts)
		})
	}
	r.Finish()
}

func strs(x any) (out []string) {
	l, _ := x.([]any)
	for _, e := range l {
		out = append(out, fmt.Sprint(e))
	}
	sort.Strings(out)
	return
}

func sameSet(what string, want []string, got any) string {
	sort.Strings(want)
	if g := strs(got); strings.Join(g, " ") != strings.Join(want, " ") {
		return fmt.Sprintf("%s are %v, want %v", what, g, want)
	}
	return ""
}

func uniq(l []string) (out []string) {
	sort.Strings(l)
	for i, s := range l {
		if i == 0 || l[i-1] != s {
			out = append(out, s)
		}
	}
	return
}

// javaData compares a data type's interface and class with the schema.
func javaData(r *report.Run, c *javaws.Case, d *model.Data) *javaTodo {
	acc := func(n string) []string { return []string{"get" + model.Hump(n) + "/0", "set" + model.Hump(n) + "/1"} }
	own, all, up := []string{"copy/0"}, []string{"copy/0", "toData/0", "formData/1"}, []string{"com.hbuf.java.Data"}
	for _, f := range d.Fields {
		own = append(own, acc(f.Name)...)
	}
	for _, f := range d.AllFields() {
		all = append(all, acc(f.Name)...)
	}
	for _, e := range d.Extends {
		up = append(up, c.Data(e.Data))
	}
	return &javaTodo{c: c, what: "data " + d.Name, op: javaws.Op{"op": "data", "t": c.Data(d)}, f: func(res map[string]any) (string, string) {
		i, m := asMap(res["iface"]), asMap(res["impl"])
		r.Count("data types inspected", 1)
		for _, e := range []string{sameSet("methods of the interface", own, i["own"]), sameSet("bases of the interface", up, i["up"]), sameSet("methods of the class", uniq(all), m["all"])} {
			if e != "" {
				return "data", e
			}
		}
		return "", ""
	}}
}

func javaServer(r *report.Run, c *javaws.Case, s *model.Server) *javaTodo {
	own, all, up := []string{}, []string{"getName/0", "getId/0"}, []string{}
	for _, m := range s.Methods {
		own = append(own, model.Lower(m.Name)+"/2")
	}
	for _, m := range s.AllMethods() {
		all = append(all, model.Lower(m.Name)+"/2")
	}
	for _, e := range s.Extends {
		up = append(up, c.Server(e.Server))
	}
	return &javaTodo{c: c, what: "server " + s.Name, op: javaws.Op{"op": "server", "t": c.Server(s)}, f: func(res map[string]any) (string, string) {
		i, m := asMap(res["iface"]), asMap(res["client"])
		r.Count("servers inspected", 1)
		for _, e := range []string{sameSet("methods of the interface", own, i["own"]), sameSet("bases of the interface", up, i["up"]), sameSet("methods of the client", uniq(all), m["all"])} {
			if e != "" {
				return "server", e
			}
		}
		return "", ""
	}}
}

// javaCopy sets every member, reads it back and copies the value.
func javaCopy(r *report.Run, c *javaws.Case, d *model.Data, v, w model.Obj) *javaTodo {
	return &javaTodo{c: c, what: "data " + d.Name + " value " + model.Show(v) + " set over " + model.Show(w), op: javaws.Op{"op": "copy", "t": c.Data(d), "v": v, "w": w}, f: func(res map[string]any) (string, string) {
		r.Count("values set, read and copied", 1)
		if n, ok := res["changes"].(json.Number); ok {
			k, _ := n.Int64()
			r.Count("changes made to copies", k)
		}
		if e := model.EqualObj(d, v, asMap(res["orig"]), tsCmp, d.Name); e != "" {
			return "accessors-or-shared", "the value, after its copy was changed: " + e
		}
		if e := model.EqualObj(d, v, asMap(res["reset"]), tsCmp, d.Name); e != "" {
			return "accessors", "the value, set over another one: " + e
		}
		for _, k := range []string{"copy", "kept"} {
			if e := model.EqualObj(d, v, asMap(res[k]), tsCmp, d.Name); e != "" {
				return "copy", k + ": " + e
			}
		}
		if res["own"] != true || res["cls"] != c.Data(d)+"Impl" {
			return "copy-class", fmt.Sprint("the copy is ", res["cls"], ", its own object: ", res["own"])
		}
		return "", ""
	}}
}

// needsEmpty says whether values of d hold, at any depth, values of an enum without items.
func needsEmpty(d *model.Data, seen map[*model.Data]bool) bool {
	if seen[d] {
		return false
	}
	seen[d] = true
	for _, f := range d.AllFields() {
		x := f.Type.Elem
		if x.Kind == model.KEnum && len(x.Enum.Items) == 0 || x.Kind == model.KData && needsEmpty(x.Data, seen) {
			return true
		}
		if f.Type.Cont == model.Map && f.Type.Key.Kind == model.KEnum && len(f.Type.Key.Enum.Items) == 0 {
			return true
		}
	}
	return false
}
