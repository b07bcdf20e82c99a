package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"verif/harness/internal/gows"
	"verif/harness/internal/javaws"
	"verif/harness/internal/model"
	"verif/harness/internal/report"
	"verif/harness/internal/tsws"
)

func init() {
	checks["C27"] = c27
}

var _ = javaws.Op{}

// fullVal is a value of d in which, where possible, no member has the default value of its type.
func fullVal(rng *model.Rng, d *model.Data) model.Obj {
	o := model.Obj{}
	for _, f := range d.AllFields() {
		for i := 0; i < 12; i++ {
			o[f.Name] = rng.TypeVal(f.Type, 2)
			if l, ok := o[f.Name].(model.List); o[f.Name] != nil && !model.IsDefault(f.Type, o[f.Name]) && (!ok || len(l) > 0) {
				break
			}
		}
	}
	return o
}

// topKeys lists the keys of a JSON object as they are written, repeated ones too.
func topKeys(text string) (out []string) {
	d := json.NewDecoder(strings.NewReader(text))
	depth, key := 0, true
	for {
		t, err := d.Token()
		if err != nil {
			break
		}
		if x, ok := t.(json.Delim); ok {
			if x == '{' || x == '[' {
				depth++
			} else {
				depth--
			}
			key = true
			continue
		}
		if depth == 1 {
			if key {
				out = append(out, fmt.Sprint(t))
			}
			key = !key
		}
	}
	sort.Strings(out)
	return
}

// keysOf compares the keys of a written value with the members: each at most once, and those with a value present.
func keysOf(d *model.Data, v model.Obj, text string) string {
	got := map[string]int{}
	for _, k := range topKeys(text) {
		got[k]++
	}
	for _, f := range d.AllFields() {
		k := model.Snake(f.Name)
		l, isList := v[f.Name].(model.List)
		if got[k] > 1 {
			return fmt.Sprintf("%s is written %d times", k, got[k])
		}
		if got[k] == 0 && v[f.Name] != nil && !model.IsDefault(f.Type, v[f.Name]) && !(isList && len(l) == 0) && f.Type.Elem.Kind != model.KData {
			return fmt.Sprintf("%s is not written, though its value is %s", k, model.Show(v[f.Name]))
		}
		delete(got, k)
	}
	for k := range got {
		return fmt.Sprintf("%s is written, which is no member", k)
	}
	return ""
}

// basePaths gives, for each ancestor of d, one way to it.
func basePaths(d *model.Data) map[*model.Data][]*model.Data {
	out := map[*model.Data][]*model.Data{}
	var walk func(x *model.Data, p []*model.Data)
	walk = func(x *model.Data, p []*model.Data) {
		for _, e := range x.Extends {
			q := append(append([]*model.Data{}, p...), e.Data)
			if out[e.Data] == nil {
				out[e.Data] = q
			}
			walk(e.Data, q)
		}
	}
	walk(d, nil)
	return out
}

// diamond says whether d reaches a base in two ways.
func diamond(d *model.Data) bool {
	seen := map[*model.Data]int{}
	var walk func(x *model.Data)
	walk = func(x *model.Data) {
		seen[x]++
		for _, e := range x.Extends {
			walk(e.Data)
		}
	}
	walk(d)
	for _, n := range seen {
		if n > 1 {
			return true
		}
	}
	return false
}

func c27() {
	r := report.New("C27", "a data type or server of a random valid schema set with deep and wide inheritance, whose members or methods are inventoried in running Go, TypeScript, Java and Dart, and whose values are used as values of each ancestor; non-trivial: it has at least one base")
	o := allOpts
	o.MoreInherit, o.Diamond, o.EmptyEnum = true, true, false
	o.Decls = 12
	allRun(r, 4, 60, 40, o, func(rng *model.Rng, s *model.Schema) {
		for _, d := range s.Datas() {
			var sig []string
			own := map[string]bool{}
			for _, f := range d.Fields {
				own[f.Name] = true
			}
			again := 0
			for _, a := range d.Ancestors() {
				for _, f := range a.Fields {
					if own[f.Name] {
						again++
					}
				}
			}
			for _, f := range d.AllFields() {
				sig = append(sig, f.Name+" "+kindOf(f.Type))
			}
			r.Case("data "+d.Name+" "+strings.Join(sig, ","), len(d.Extends) > 0)
			r.Seen("data shapes", fmt.Sprintf("%d own members, %d redeclared, %d bases, %d ancestors, shared %v", len(d.Fields), again, len(d.Extends), len(d.Ancestors()), diamond(d)))
		}
		for _, v := range s.Servers() {
			r.Case("server "+v.Name+fmt.Sprint(len(v.AllMethods())), len(v.Extends) > 0)
			r.Seen("server shapes", fmt.Sprintf("%d own methods, %d in all, %d bases", len(v.Methods), len(v.AllMethods()), len(v.Extends)))
		}
	}, func(l *langs, rng *model.Rng) {
		perform(r, l.g, goInherit(r, l.g, rng))
		tsPerform(r, l.t, tsInherit(r, l.t, rng))
		var js []*javaTodo
		for _, c := range l.j.Good() {
			for _, d := range c.S.Datas() {
				js = append(js, javaData(r, c, d), javaCopy(r, c, d, rng.DataVal(d, 3), rng.DataVal(d, 2)))
			}
			for _, s := range c.S.Servers() {
				js = append(js, javaServer(r, c, s))
			}
		}
		javaPerform(r, l.j, js)
		dartInherit(r, l.d, rng)
	})
}

// goType is the type a member has in Go.
func goType(t model.Type) string {
	ref := func(x model.Ref) string {
		n := ""
		switch x.Kind {
		case model.KBase:
			n = map[string]string{model.Float: "float32", model.Double: "float64", model.Int64: "hbuf.Int64", model.Uint64: "hbuf.Uint64", model.Date: "hbuf.Time", model.Decimal: "decimal.Decimal"}[x.Base]
			if n == "" {
				n = x.Base
			}
		case model.KEnum:
			n = gows.PkgName(x.Enum.File.GoPkg) + "." + model.Hump(x.Enum.Name)
		case model.KData:
			n = gows.PkgName(x.Data.File.GoPkg) + "." + model.Hump(x.Data.Name)
		}
		if x.Null {
			n = "*" + n
		}
		return n
	}
	switch t.Cont {
	case model.Array:
		return "[]" + ref(t.Elem)
	case model.Map:
		return "map[" + ref(t.Key) + "]" + ref(t.Elem)
	}
	return ref(t.Elem)
}

func goInherit(r *report.Run, b *gows.Batch, rng *model.Rng) (ts []*todo) {
	for _, c := range b.Good() {
		for _, d := range c.S.Datas() {
			fs := d.AllFields()
			ts = append(ts, &todo{c: c, what: "data " + d.Name, op: &gows.Op{Op: "members", T: c.Data(d)}, f: func(res gows.Res) (string, string) {
				r.Count("data types inventoried (Go)", 1)
				fields, methods, types := map[string]int{}, map[string]bool{}, map[string]string{}
				for _, x := range texts(res["fields"]) {
					p := strings.SplitN(x, " ", 2)
					fields[p[0]]++
					types[p[0]] = p[1]
				}
				for _, x := range texts(res["methods"]) {
					methods[x] = true
				}
				for _, f := range fs {
					h := model.Hump(f.Name)
					if fields[h] != 1 {
						return "go-members", fmt.Sprintf("member %s of %s is there %d times in Go: %s", f.Name, d.Name, fields[h], model.Show(res["fields"]))
					}
					if types[h] != goType(f.Type) {
						return "go-type", fmt.Sprintf("member %s of %s is a %s in Go, want %s", f.Name, d.Name, types[h], goType(f.Type))
					}
					delete(fields, h)
					for _, p := range []string{"Get", "Set"} {
						if !methods[p+h] {
							return "go-accessors", fmt.Sprintf("%s has no %s%s in Go", d.Name, p, h)
						}
						delete(methods, p+h)
					}
				}
				for k := range fields {
					return "go-members", fmt.Sprintf("%s has the field %s in Go, which is no member", d.Name, k)
				}
				for k := range methods {
					if strings.HasPrefix(k, "Get") || strings.HasPrefix(k, "Set") {
						return "go-accessors", fmt.Sprintf("%s has the accessor %s in Go, which is of no member", d.Name, k)
					}
				}
				return "", ""
			}})
			v := fullVal(rng, d)
			ts = append(ts, &todo{c: c, what: "data " + d.Name + " value " + model.Show(v), op: &gows.Op{Op: "json", T: c.Data(d), V: gows.ToGo(d, v)}, f: func(res gows.Res) (string, string) {
				if e := keysOf(d, v, str(res["json"])); e != "" {
					return "go-keys", e + "\ndocument " + str(res["json"])
				}
				return "", ""
			}})
			paths := basePaths(d)
			if diamond(d) {
				paths = nil // such a member is declared again by the child, so that bases hold one of their own
			}
			for _, a := range d.Ancestors() {
				path := paths[a]
				if path == nil {
					continue
				}
				names := []string{}
				hidden := map[string]bool{} // members of a that a type on the way declares again
				for i, p := range path {
					names = append(names, model.Hump(p.Name))
					q := d
					if i > 0 {
						q = path[i-1]
					}
					for _, f := range q.Fields {
						hidden[f.Name] = true
					}
				}
				x := rng.DataVal(a, 2)
				ts = append(ts, &todo{c: c, what: fmt.Sprintf("data %s as %s, value %s, then %s", d.Name, a.Name, model.Show(v), model.Show(x)), op: &gows.Op{Op: "asbase", T: c.Data(d), Texts: names, V: gows.ToGo(d, v), X: gows.ToGo(a, x)}, f: func(res gows.Res) (string, string) {
					r.Count("values used as an ancestor (Go)", 1)
					base, child := gows.FromGo(a, asMap(res["base"])), gows.FromGo(d, asMap(res["child"]))
					for _, f := range a.AllFields() {
						if hidden[f.Name] {
							continue
						}
						if e := model.EqualVal(f.Type, v[f.Name], base[f.Name], goCmp, f.Name); e != "" {
							return "go-base-reads", "read through " + a.Name + ": " + e
						}
						if e := model.EqualVal(f.Type, x[f.Name], child[f.Name], goCmp, f.Name); e != "" {
							return "go-base-writes", "written through " + a.Name + ", read from " + d.Name + ": " + e
						}
					}
					return "", ""
				}})
			}
		}
	}
	return
}

func tsInherit(r *report.Run, b *tsws.Batch, rng *model.Rng) (ts []*tsTodo) {
	for _, c := range b.Good() {
		for _, d := range c.S.Datas() {
			v := fullVal(rng, d)
			ts = append(ts, &tsTodo{c: c, what: "data " + d.Name + " value " + model.Show(v), op: tsws.Op{"op": "inventory", "t": c.Data(d), "v": v}, f: func(res map[string]any) (string, string) {
				r.Count("data types inventoried (TypeScript)", 1)
				var want []string
				for _, f := range d.AllFields() {
					want = append(want, model.Lower(f.Name))
				}
				if e := sameSet("the properties of "+d.Name, want, res["keys"]); e != "" {
					return "ts-members", e
				}
				if e := keysOf(d, v, str(res["text"])); e != "" {
					return "ts-keys", e + "\ndocument " + str(res["text"])
				}
				return "", ""
			}})
			for _, a := range d.Ancestors() {
				part := model.Obj{}
				for _, f := range a.AllFields() {
					part[f.Name] = v[f.Name]
				}
				ts = append(ts, &tsTodo{c: c, what: fmt.Sprintf("data %s as %s, value %s", d.Name, a.Name, model.Show(v)), op: tsws.Op{"op": "asbase", "t": c.Data(d), "base": c.Data(a), "v": v}, f: func(res map[string]any) (string, string) {
					r.Count("values used as an ancestor (TypeScript)", 1)
					if e := model.EqualObj(a, part, asMap(res["base"]), tsCmp, a.Name); e != "" {
						return "ts-base-reads", e
					}
					if e := model.EqualObj(a, part, asMap(res["parsed"]), tsCmp, a.Name); e != "" {
						return "ts-base-parses", e
					}
					return "", ""
				}})
			}
		}
		for _, s := range c.S.Servers() {
			ts = append(ts, &tsTodo{c: c, what: "server " + s.Name, op: tsws.Op{"op": "client", "t": c.Server(s)}, f: func(res map[string]any) (string, string) {
				r.Count("servers inventoried (TypeScript)", 1)
				var want []string
				for _, m := range s.AllMethods() {
					want = append(want, model.Lower(m.Name))
				}
				if e := sameSet("the methods of "+s.Name+"Client", want, res["methods"]); e != "" {
					return "ts-methods", e
				}
				return "", ""
			}})
		}
	}
	return
}
