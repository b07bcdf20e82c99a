package main

import (
	"fmt"
	"strconv"
	"time"

	"verif/harness/internal/cli"
	"verif/harness/internal/gows"
	"verif/harness/internal/model"
	"verif/harness/internal/report"
	"verif/harness/internal/tsws"
)

func init() { checks["C35"] = c35 }

// evolution says what was done to a schema.
type evolution struct {
	changed map[any]bool                  // datas and enums that have something new
	old     map[*model.Enum][]*model.Item // the items of before
	n       int
	kinds   map[string]int
}

func (e *evolution) next() string { e.n++; return strconv.Itoa(e.n) }
func (e *evolution) did(k string) { e.kinds[k]++ }

// evolve extends a schema in ways that must not disturb what was there.
func evolve(rng *model.Rng, s *model.Schema) *evolution {
	ev := &evolution{changed: map[any]bool{}, old: map[*model.Enum][]*model.Item{}, kinds: map[string]int{}}
	for _, e := range s.Enums() {
		ev.old[e] = append([]*model.Item{}, e.Items...)
	}
	bases := []string{model.Int8, model.Int16, model.Int32, model.Int64, model.Uint16, model.Uint32, model.Uint64, model.Bool, model.Float, model.Double, model.String, model.Date, model.Decimal}
	leafs := map[*model.File][]*model.Data{}
	leaf := func(f *model.File) *model.Data {
		if l := leafs[f]; len(l) > 0 && rng.P(0.7) {
			return model.Pick(rng, l)
		}
		n := ev.next()
		d := &model.Data{File: f, Name: "Grown" + n}
		for i, k := 0, rng.Range(0, 2); i < k; i++ {
			d.Fields = append(d.Fields, &model.Field{Type: model.Type{Elem: model.Ref{Kind: model.KBase, Base: model.Pick(rng, bases), Null: rng.P(0.4)}}, Name: "leaf" + ev.next(), Id: strconv.Itoa(i)})
		}
		leafs[f] = append(leafs[f], d)
		insertDecl(rng, f, d)
		ev.did("declaration")
		return d
	}
	ref := func(f *model.File) model.Ref {
		var es []*model.Enum
		for _, g := range append([]*model.File{f}, f.Imports...) {
			if g.GoPkg != f.GoPkg {
				continue
			}
			for _, d := range g.Decls {
				if e, ok := d.(*model.Enum); ok && len(e.Items) > 0 {
					es = append(es, e)
				}
			}
		}
		switch {
		case len(es) > 0 && rng.P(0.2):
			return model.Ref{Kind: model.KEnum, Enum: model.Pick(rng, es), Null: rng.P(0.4)}
		case rng.P(0.25):
			return model.Ref{Kind: model.KData, Data: leaf(f), Null: rng.P(0.4)}
		}
		return model.Ref{Kind: model.KBase, Base: model.Pick(rng, bases), Null: rng.P(0.4)}
	}
	field := func(f *model.File) *model.Field {
		t := model.Type{Elem: ref(f)}
		switch rng.Intn(6) {
		case 0:
			t.Cont, t.ContNull = model.Array, rng.P(0.5)
		case 1:
			t.Cont, t.ContNull = model.Map, rng.P(0.5)
			t.Key = model.Ref{Kind: model.KBase, Base: model.Pick(rng, []string{model.String, model.Int32})}
		}
		n := ev.next()
		return &model.Field{Type: t, Name: model.Pick(rng, []string{"added", "aAdded", "zAdded", "added_"}) + n, Id: strconv.Itoa(700000 + ev.n)}
	}
	how := rng.Float64() // how much
	for _, f := range append([]*model.File{}, s.Files...) {
		if rng.P(0.3) {
			n := ev.next()
			g := &model.File{Path: "grown" + n + ".hbuf", GoPkg: f.GoPkg, JavaPkg: f.JavaPkg}
			if i := len(f.Path) - len(f.Base()+".hbuf"); i > 0 {
				g.Path = f.Path[:i] + g.Path
			}
			s.Files = append(s.Files, g)
			d := leaf(g)
			leafs[f] = append(leafs[f], d)
			f.Imports = append(f.Imports, g)
			ev.did("file")
		}
		decls := append([]model.Decl{}, f.Decls...)
		for _, d := range decls {
			switch x := d.(type) {
			case *model.Enum:
				if rng.P(how) {
					for i, k := 0, rng.Range(1, 3); i < k; i++ {
						n := ev.next()
						v := 1_000_000 + ev.n
						at := rng.Intn(len(x.Items) + 1)
						it := &model.Item{Name: model.Pick(rng, []string{"added", "a_added", "ZAdded"}) + n, Id: strconv.Itoa(v), Value: v}
						x.Items = append(x.Items[:at:at], append([]*model.Item{it}, x.Items[at:]...)...)
						ev.did("item")
					}
					ev.changed[x] = true
				}
				if rng.P(how / 2) {
					rng.Shuffle(len(x.Items), func(i, j int) { x.Items[i], x.Items[j] = x.Items[j], x.Items[i] })
					ev.did("order of items")
				}
			case *model.Data:
				if rng.P(how) {
					for i, k := 0, rng.Range(1, 3); i < k; i++ {
						at := rng.Intn(len(x.Fields) + 1)
						x.Fields = append(x.Fields[:at:at], append([]*model.Field{field(f)}, x.Fields[at:]...)...)
						ev.did("member")
					}
					ev.changed[x] = true
				}
				if rng.P(how / 3) {
					b := &model.Data{File: f, Name: "Grown" + ev.next()}
					b.Fields = append(b.Fields, field(f))
					insertDecl(rng, f, b)
					x.Extends = append(x.Extends, model.Ext{Data: b, Id: strconv.Itoa(700000 + ev.n)})
					ev.changed[x] = true
					ev.did("base")
				}
				if rng.P(how / 2) {
					rng.Shuffle(len(x.Fields), func(i, j int) { x.Fields[i], x.Fields[j] = x.Fields[j], x.Fields[i] })
					ev.did("order of members")
				}
			case *model.Server:
				method := func(v *model.Server) {
					n := ev.next()
					m := &model.Method{Name: model.Pick(rng, []string{"added", "aAdded", "added_"}) + n, Id: strconv.Itoa(700000 + ev.n), Param: leaf(f), ParamName: "req"}
					if rng.P(0.7) {
						m.Result = leaf(f)
					}
					at := rng.Intn(len(v.Methods) + 1)
					v.Methods = append(v.Methods[:at:at], append([]*model.Method{m}, v.Methods[at:]...)...)
					ev.did("method")
				}
				if rng.P(how) {
					method(x)
				}
				if rng.P(how / 3) {
					b := &model.Server{File: f, Name: "Grown" + ev.next()}
					method(b)
					insertDecl(rng, f, b)
					x.Extends = append(x.Extends, model.Ext{Server: b, Id: strconv.Itoa(700000 + ev.n)})
					ev.did("server")
				}
				if rng.P(how / 2) {
					rng.Shuffle(len(x.Methods), func(i, j int) { x.Methods[i], x.Methods[j] = x.Methods[j], x.Methods[i] })
					ev.did("order of methods")
				}
			}
		}
		if rng.P(how / 2) {
			rng.Shuffle(len(f.Decls), func(i, j int) { f.Decls[i], f.Decls[j] = f.Decls[j], f.Decls[i] })
			ev.did("order of declarations")
		}
	}
	if rng.P(0.5) {
		model.AddDomainTags(rng, s, model.Domain{Verify: true, Lang: true, RpcTag: true, UI: true})
		ev.did("tags")
	}
	return ev
}

// probes adds a server with a method for every data.
func probes(s *model.Schema) {
	for k, f := range s.Files {
		v := &model.Server{File: f, Name: "ProbeSvc" + strconv.Itoa(k)}
		for _, d := range f.Decls {
			if x, ok := d.(*model.Data); ok {
				n := strconv.Itoa(len(v.Methods))
				v.Methods = append(v.Methods, &model.Method{Result: x, Name: "echo" + n, Param: x, ParamName: "req", Id: n})
			}
		}
		if len(v.Methods) > 0 {
			f.Decls = append(f.Decls, v)
		}
	}
}

// grew says whether something in reach of a data is new.
func (e *evolution) grew(d *model.Data, seen map[*model.Data]bool) bool {
	if d == nil || seen[d] {
		return false
	}
	seen[d] = true
	if e.changed[d] {
		return true
	}
	for _, f := range d.AllFields() {
		x := f.Type.Elem
		if x.Kind == model.KData && e.grew(x.Data, seen) || x.Kind == model.KEnum && e.changed[x.Enum] {
			return true
		}
	}
	for _, a := range d.Ancestors() {
		if e.changed[a] {
			return true
		}
	}
	return false
}

// pair is a call of the old and of the new version.
type pair struct {
	v      [2]*xcall
	param  *model.Data // of the old version
	result *model.Data
}

// unknown says which nullable members of the new type are set in a value of the old one.
func unknown(old, new *model.Data, got model.Obj) string {
	was := map[string]bool{}
	for _, f := range old.AllFields() {
		was[f.Name] = true
	}
	for _, f := range new.AllFields() {
		if !was[f.Name] && f.Type.IsNull() && got[f.Name] != nil {
			return fmt.Sprintf("%s, which the sender did not know, is %s", f.Name, model.Show(got[f.Name]))
		}
	}
	return ""
}

var versions = [2]string{"old", "new"}

func c35() {
	r := report.New("C35", "a method of a random valid schema and the same method after the schema was extended (members, bases, items, methods, servers, declarations, files and tags added, declarations, members, items and methods in another order): each language's (Go, TypeScript, Dart) client of one version calls each language's router of the other one, and reads its reply; non-trivial: something in reach of the argument or result type was extended")
	o := allOpts
	o.MoreServers, o.EmptyEnum = true, false
	bin := cli.Build(r)
	dl := r.Budget(90*time.Second, 12*time.Minute)
	per := 10
	for n := 0; n < r.N(8, 120) && time.Now().Before(dl); n++ {
		l := &langs{g: gows.New(r, bin), t: tsws.New(r, bin), d: newDart(r, bin)}
		var pairs []*pair
		for i := 0; i < per; i++ {
			seed := r.Seed*43_000_003 + int64(n*1000+i)
			a, b := model.GenSchema(model.NewRng(seed), o), model.GenSchema(model.NewRng(seed), o)
			probes(a)
			probes(b)
			if a.String() != b.String() {
				panic("the generator is not deterministic")
			}
			sa, sb := a.Servers(), b.Servers()
			rng := model.NewRng(seed + 500)
			ev := evolve(rng, b)
			for k, v := range ev.kinds {
				r.Count("extensions: "+k, int64(v))
			}
			for _, s := range []*model.Schema{a, b} {
				src := s.Sources(nil)
				l.g.Add(s, src)
				l.t.Add(s, src)
				l.d.Add(s, src)
			}
			news := map[*model.Enum][]*model.Item{} // values of the new version use the old items
			for e, items := range ev.old {
				news[e] = e.Items
				e.Items = items
			}
			for k, v1 := range sa {
				v2 := sb[k]
				ms := map[string]model.BoundMethod{}
				for _, m := range v2.AllMethods() {
					ms[m.Name] = m
				}
				for _, m1 := range v1.AllMethods() {
					m2, ok := ms[m1.Name]
					if !ok {
						panic("lost " + m1.Name)
					}
					if hasBytes(m2.Param, map[*model.Data]bool{}) || m2.Result != nil && hasBytes(m2.Result, map[*model.Data]bool{}) {
						continue // a known finding of C12 and C23
					}
					p := &pair{param: m1.Param, result: m1.Result}
					for j, m := range []model.BoundMethod{m1, m2} {
						x := &xcall{s: []*model.Server{v1, v2}[j], m: m, n: 2*i + j, arg: rng.DataVal(m.Param, 2), path: map[string]string{}, body: map[string]string{}, reply: map[string]string{}}
						if m.Result != nil {
							x.res = rng.DataVal(m.Result, 2)
						}
						p.v[j] = x
					}
					r.Case(v1.Name+"."+m1.Name+model.Show(p.v[0].arg)+model.Show(p.v[1].arg), ev.grew(m2.Param, map[*model.Data]bool{}) || ev.grew(m2.Result, map[*model.Data]bool{}))
					pairs = append(pairs, p)
				}
			}
			for e, items := range news {
				e.Items = items
			}
		}
		done := make(chan bool, 3)
		go func() { l.g.Compile(); done <- true }()
		go func() { l.t.Compile(); done <- true }()
		go func() { l.d.Compile(); done <- true }()
		for i := 0; i < 3; i++ {
			<-done
		}
		l.g.Report()
		l.t.Report()
		l.d.Report()
		r.Count("schemas compiled (Go)", int64(len(l.g.Good())))
		r.Count("schemas compiled (TypeScript)", int64(len(l.t.Good())))
		r.Count("schemas loaded (Dart)", int64(len(l.d.Good())))
		crossVersions(r, []*side{goSide(r, l.g), tsSide(r, l.t), dartSide(r, l.d)}, pairs)
		l.g.Drop()
		l.t.Drop()
		l.d.Drop()
	}
	r.Finish()
}

func crossVersions(r *report.Run, sides []*side, pairs []*pair) {
	var all []*xcall
	of := map[*xcall]*pair{}
	ver := map[*xcall]int{}
	for _, p := range pairs {
		for j, x := range p.v {
			all = append(all, x)
			of[x], ver[x] = p, j
		}
	}
	for _, cl := range sides { // both versions send
		cl.send(all, func(*xcall) []string { return []string{""} }, func(x *xcall, from, path, body string, ret model.Obj, err string) (string, string) {
			r.Count("requests written ("+cl.lang+")", 1)
			if path == "" {
				return "send", "nothing is sent: " + err
			}
			x.path[cl.lang], x.body[cl.lang] = path, body
			return "", ""
		})
	}
	// the other version serves
	var cross []*xcall
	sender := map[*xcall]*xcall{}
	for _, p := range pairs {
		for j, x := range p.v {
			y := *p.v[1-j]
			y.path, y.body, y.reply = x.path, x.body, map[string]string{}
			cross = append(cross, &y)
			sender[&y] = x
			of[&y], ver[&y] = p, 1-j
		}
	}
	for _, sv := range sides {
		sv.serve(cross, func(y *xcall) []string { return sortedKeys(y.path) }, func(y *xcall, from string, log []any, reply, err string) (string, string) {
			p, j := of[y], ver[y]
			x := sender[y]
			r.Count(fmt.Sprintf("requests of the %s version served by the %s one", versions[1-j], versions[j]), 1)
			r.Count("served ("+from+" to "+sv.lang+")", 1)
			at := fmt.Sprintf("%s.%s sent by %s (%s version) under %s, served by %s (%s version)", y.s.Name, y.m.Name, from, versions[1-j], x.path[from], sv.lang, versions[j])
			if len(log) != 1 {
				return "delivery", fmt.Sprintf("%s: reached %d implementations (error %q)\nrequest %s", at, len(log), err, x.body[from])
			}
			e := asMap(log[0])
			if e["method"] != y.m.Name || e["here"] != true {
				return "delivery", fmt.Sprintf("%s: reached %v of %v", at, e["method"], e["server"])
			}
			got := model.Obj(asMap(e["arg"]))
			d := model.EqualObj(p.param, x.arg, got, goCmp, "argument")
			if d == "" && j == 1 {
				d = unknown(p.param, y.m.Param, got)
			}
			if d != "" {
				return "argument", at + ": " + d + "\nrequest " + x.body[from]
			}
			if err != "" {
				return "serve-error", at + ": " + err
			}
			if y.m.Result != nil {
				if reply == "" {
					return "no-reply", at + ": no reply"
				}
				y.reply[sv.lang] = reply
			}
			return "", ""
		})
	}
	// the sender reads the reply
	var back []*xcall
	replier := map[*xcall]*xcall{}
	for _, y := range cross {
		x := *sender[y]
		x.reply = y.reply
		back = append(back, &x)
		replier[&x] = y
		of[&x], ver[&x] = of[y], 1-ver[y]
	}
	for _, cl := range sides {
		cl.send(back, func(x *xcall) []string { return sortedKeys(x.reply) }, func(x *xcall, from, path, body string, ret model.Obj, err string) (string, string) {
			p, j := of[x], ver[x]
			y := replier[x]
			r.Count(fmt.Sprintf("replies of the %s version read by the %s one", versions[1-j], versions[j]), 1)
			r.Count("read ("+from+" to "+cl.lang+")", 1)
			at := fmt.Sprintf("%s.%s called by %s (%s version), answered by %s (%s version)", x.s.Name, x.m.Name, cl.lang, versions[j], from, versions[1-j])
			if err != "" || ret == nil {
				return "return", fmt.Sprintf("%s: result %v, error %q\nreply %s", at, ret, err, x.reply[from])
			}
			d := model.EqualObj(p.result, y.res, ret, goCmp, "result")
			if d == "" && j == 1 {
				d = unknown(p.result, x.m.Result, ret)
			}
			if d != "" {
				return "result", at + ": " + d + "\nreply " + x.reply[from]
			}
			return "", ""
		})
	}
}
