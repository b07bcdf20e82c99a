package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"verif/harness/internal/cli"
	"verif/harness/internal/dart"
	"verif/harness/internal/model"
	"verif/harness/internal/report"
)

// dartOpts are schemas whose names are legal and distinct in Dart.
var dartOpts = model.Opts{Files: 4, Decls: 7, Servers: true, Subdirs: true, Packages: true, NoPkg: true, Docs: true, TypeCase: true, Override: true, Diamond: true, HexIds: true, NoZero: true, Mutual: true, EmptyEnum: true,
	MapKeys: []string{model.Int8, model.Int16, model.Int32, model.Int64, model.Uint8, model.Uint16, model.Uint32, model.Uint64, model.String, model.Bool, model.Date, model.Decimal}}

func c29() {
	r := report.New("C29", "a random valid schema set whose Dart output is parsed, resolved and executed; every member and method is inventoried, and random values are constructed, written, read, copied and compared; non-trivial: a schema set of at least two files or eight declarations, a value of at least three members")
	bin := cli.Build(r)
	dl := r.Budget(100*time.Second, 12*time.Minute)
	for n := 0; n < r.N(60, 1500) && time.Now().Before(dl); n++ {
		b := newDart(r, bin)
		for i := 0; i < 60; i++ {
			rng := model.NewRng(r.Seed*41_000_003 + int64(n*1000+i))
			s := model.GenSchema(rng, dartOpts)
			if rng.P(0.3) {
				model.AddTags(rng, s)
			}
			if rng.P(0.5) {
				model.AddDomainTags(rng, s, model.DomainAny)
			}
			nd := 0
			for _, f := range s.Files {
				nd += len(f.Decls)
			}
			r.Case(cli.Hash(s.Sources(nil)), len(s.Files) > 1 || nd >= 8)
			r.Count("declarations", int64(nd))
			b.Add(s, nil)
		}
		b.Compile()
		b.Report()
		r.Count("schemas loaded", int64(len(b.Good())))
		var ts []*dartTodo
		for _, c := range b.Good() {
			rng := model.NewRng(r.Seed*43_000_003 + int64(n*1000+c.N))
			for _, d := range c.S.Datas() {
				ts = append(ts, dartMembers(r, c, d))
				if needsEmpty(d, map[*model.Data]bool{}) {
					continue
				}
				ts = append(ts, dartFresh(r, c, d))
				for k := 0; k < 3; k++ {
					ts = append(ts, dartValue(r, c, d, rng.DataVal(d, 3), rng.DataVal(d, 2), rng.Int63()), dartAbsent(r, c, d, rng))
				}
			}
			for _, s := range c.S.Servers() {
				ts = append(ts, dartMethods(r, c, s))
			}
		}
		dartPerform(r, ts)
		b.Drop()
	}
	r.Finish()
}

// dartMembers compares the class of a data type with its declaration.
func dartMembers(r *report.Run, c *dartCase, d *model.Data) *dartTodo {
	return &dartTodo{c: c, what: "data " + d.Name, f: func() (string, string) {
		r.Count("data types inventoried (Dart)", 1)
		k := c.Data(d)
		if k == nil {
			return "members", "there is no class " + model.Hump(d.Name)
		}
		up := []string{"Data"}
		for _, e := range d.Extends {
			up = append(up, model.Hump(e.Data.Name))
		}
		if e := sameSet("the interfaces of "+k.Name, up, typeNames(k.Impl)); e != "" {
			return "bases", e
		}
		get, set := map[string][]string{}, map[string][]string{}
		for name, ms := range k.Interface() {
			for _, m := range ms {
				switch {
				case strings.HasSuffix(name, "="):
					t := m.T
					if m.Kind == "set" && len(m.Params) == 1 {
						t = m.Params[0].T
					}
					set[name[:len(name)-1]] = append(set[name[:len(name)-1]], dartText(t))
				case m.Kind == "get" || m.Kind == "field":
					get[name] = append(get[name], dartText(m.T))
				}
			}
		}
		for _, f := range d.AllFields() {
			n, want := model.Lower(f.Name), dartType(f.Type)
			for what, m := range map[string]map[string][]string{"getter": get, "setter": set} {
				l := uniq(m[n])
				if len(l) != 1 || l[0] != want {
					return "members", fmt.Sprintf("the %s of member %s of %s is of type %q, want %q", what, f.Name, d.Name, l, want)
				}
				delete(m, n)
			}
		}
		delete(get, "hashCode")
		delete(get, "runtimeType")
		if len(get) > 0 || len(set) > 0 {
			return "members", fmt.Sprintf("%s has properties that are no members: %q %q", d.Name, sortedKeys(get), sortedKeys(set))
		}
		return "", ""
	}}
}

// dartMethods compares the interface and the client of a server with its declaration.
func dartMethods(r *report.Run, c *dartCase, s *model.Server) *dartTodo {
	return &dartTodo{c: c, what: "server " + s.Name, f: func() (string, string) {
		r.Count("servers inventoried (Dart)", 1)
		k := c.Server(s)
		if k == nil {
			return "methods", "there is no class " + model.Hump(s.Name)
		}
		var up []string
		for _, e := range s.Extends {
			up = append(up, model.Hump(e.Server.Name))
		}
		if e := sameSet("the interfaces of "+k.Name, up, typeNames(k.Impl)); e != "" {
			return "bases", e
		}
		got := map[string][]string{}
		for name, ms := range k.Interface() {
			for _, m := range ms {
				if m.Kind == "method" && len(m.Params) == 2 {
					got[name] = append(got[name], dartText(m.T)+" of "+dartText(m.Params[0].T))
				} else {
					got[name] = append(got[name], m.Kind)
				}
			}
		}
		for _, m := range s.AllMethods() {
			want := "Future<void>"
			if m.Result != nil {
				want = "Future<" + model.Hump(m.Result.Name) + ">"
			}
			want += " of " + model.Hump(m.Param.Name)
			if l := uniq(got[model.Lower(m.Name)]); len(l) != 1 || l[0] != want {
				return "methods", fmt.Sprintf("method %s of %s is %q in Dart, want %q", m.Name, s.Name, l, want)
			}
			delete(got, model.Lower(m.Name))
		}
		if len(got) > 0 {
			return "methods", fmt.Sprintf("%s has %q, which are no methods of it", s.Name, sortedKeys(got))
		}
		return "", ""
	}}
}

// noCont says whether no member of d, at any depth, is a list or a map.
func noCont(d *model.Data, seen map[*model.Data]bool) bool {
	if seen[d] {
		return true
	}
	seen[d] = true
	for _, f := range d.AllFields() {
		if f.Type.Cont != model.None || f.Type.Elem.Kind == model.KData && !noCont(f.Type.Elem.Data, seen) {
			return false
		}
	}
	return true
}

// dartFresh checks the value read from an empty document.
func dartFresh(r *report.Run, c *dartCase, d *model.Data) *dartTodo {
	return &dartTodo{c: c, what: "an empty document read as " + d.Name, f: func() (key, detail string) {
		if e := dartTry(func() {
			o := c.read(d, c.parse(d, "{}"))
			for _, f := range d.AllFields() {
				if e := legalZero(f.Type, o[f.Name]); e != "" {
					key, detail = "default", fmt.Sprintf("member %s is %s: %s", f.Name, model.Show(o[f.Name]), e)
					return
				}
			}
		}); e != "" {
			return "default", e
		}
		return
	}}
}

// dartAbsent checks the reading of a document without some members, with null and unknown ones.
func dartAbsent(r *report.Run, c *dartCase, d *model.Data, rng *model.Rng) *dartTodo {
	v := rng.DataVal(d, 3)
	w := model.Wire(d, v)
	gone := map[string]bool{}
	for _, f := range d.AllFields() {
		switch {
		case rng.P(0.25):
			delete(w, model.Snake(f.Name))
			gone[f.Name] = true
		case rng.P(0.1):
			w[model.Snake(f.Name)] = nil
			gone[f.Name] = true
		}
	}
	if rng.P(0.5) {
		w["zz_unknown"] = model.Pick(rng, []any{nil, 1, "x", []any{1, "a"}, map[string]any{"a": nil}})
	}
	b, _ := json.Marshal(w)
	text := string(b)
	r.Case("dart "+d.Name+text, len(d.AllFields()) >= 3)
	return &dartTodo{c: c, what: "data " + d.Name + " document " + text, f: func() (key, detail string) {
		r.Count("documents read (Dart)", 1)
		if e := dartTry(func() {
			g := c.read(d, c.parse(d, text))
			for _, f := range d.AllFields() {
				if gone[f.Name] {
					if e := legalZero(f.Type, g[f.Name]); e != "" {
						key, detail = "parse-absent", fmt.Sprintf("member %s is %s: %s", f.Name, model.Show(g[f.Name]), e)
						return
					}
				} else if e := model.EqualVal(f.Type, v[f.Name], g[f.Name], tsCmp, d.Name+"."+f.Name); e != "" {
					key, detail = "parse", e
					return
				}
			}
		}); e != "" {
			return "parse", e
		}
		return
	}}
}

// dartValue constructs v, writes, reads, copies and compares it, and replaces members of it by those of x.
func dartValue(r *report.Run, c *dartCase, d *model.Data, v, x model.Obj, seed int64) *dartTodo {
	r.Case("dart "+d.Name+model.Show(v), len(d.AllFields()) >= 3)
	return &dartTodo{c: c, what: "data " + d.Name + " value " + model.Show(v), f: func() (key, detail string) {
		r.Count("values (Dart)", 1)
		rng := model.NewRng(seed)
		stage := "construct"
		say := func(k, f string, a ...any) bool {
			if key == "" {
				key, detail = k, fmt.Sprintf(f, a...)
			}
			return true
		}
		same := func(k string, want model.Obj, o any) bool {
			if e := model.EqualObj(d, want, c.read(d, o), tsCmp, d.Name); e != "" {
				return say(k, "%s", e)
			}
			return false
		}
		e := dartTry(func() {
			o := c.obj(d, v)
			if same("construct", v, o) {
				return
			}
			stage = "write"
			text := c.doc(o)
			var got any
			dec := json.NewDecoder(strings.NewReader(text))
			dec.UseNumber()
			if err := dec.Decode(&got); err != nil {
				say("write", "%v\ndocument %s", err, text)
				return
			}
			if e := (model.Cmp{}).CheckWire(d, v, got, d.Name); e != "" {
				say("write", "%s\ndocument %s", e, text)
				return
			}
			stage = "read-back"
			if same("read-back", v, c.parse(d, text)) {
				return
			}
			wire, _ := json.Marshal(model.Wire(d, v))
			stage = "read"
			if same("read", v, c.parse(d, string(wire))) {
				return
			}
			stage = "text"
			if _, err := c.W.Call(o, "toString", nil, nil); err != nil {
				say("text", "toString: %v", err)
				return
			}
			stage = "copy"
			cp, err := c.W.Call(o, "copy", nil, nil)
			if err != nil {
				say("copy", "%v", err)
				return
			}
			if cp == o {
				say("copy", "the copy is the value itself")
				return
			}
			if same("copy", v, cp) {
				return
			}
			stage = "equality"
			plain := noCont(d, map[*model.Data]bool{})
			eq := func(a, b any, want bool, what string) bool {
				g, err := c.W.Equal(a, b)
				if err != nil || g != want {
					return say("equality", "%s: equal is %v, want %v (%v)", what, g, want, err)
				}
				r.Count("comparisons (Dart)", 1)
				return false
			}
			if eq(o, o, true, "the value and itself") || plain && eq(o, cp, true, "the value and its copy") {
				return
			}
			if plain {
				h1, err1 := c.W.Get(o, "hashCode")
				h2, err2 := c.W.Get(cp, "hashCode")
				if err1 != nil || err2 != nil || fmt.Sprint(h1) != fmt.Sprint(h2) {
					say("equality", "hash codes of equal values: %v %v %v %v", h1, h2, err1, err2)
					return
				}
			}
			stage = "replace"
			sub := map[string]any{}
			want := model.Obj{}
			for _, f := range d.AllFields() {
				want[f.Name] = v[f.Name]
				if rng.P(0.4) && x[f.Name] != nil {
					sub[model.Lower(f.Name)] = c.val(f.Type, x[f.Name])
					want[f.Name] = x[f.Name]
				}
			}
			rp, err := c.W.Call(o, "copyWith", nil, sub)
			if err != nil {
				say("replace", "copyWith: %v", err)
				return
			}
			if same("replace", want, rp) || same("replace-original", v, o) {
				return
			}
			differ := model.EqualObj(d, v, want, tsCmp, "") != ""
			if plain && differ && eq(o, rp, false, "values that differ: "+model.Show(want)) {
				return
			}
			// changes of the copy, inside and out, leave the value alone
			stage = "independence"
			n := 0
			for _, f := range d.AllFields() {
				y, _ := c.W.Get(cp, model.Lower(f.Name))
				n += c.spoil(f.Type, y, map[any]bool{})
			}
			r.Count("changes made inside copies (Dart)", int64(n))
			if same("independence", v, o) {
				return
			}
			for _, f := range d.AllFields() {
				if err := c.W.Set(cp, model.Lower(f.Name), c.val(f.Type, x[f.Name])); err != nil {
					say("set", "%s: %v", f.Name, err)
					return
				}
			}
			if same("set", x, cp) || same("independence", v, o) {
				return
			}
		})
		if e != "" {
			say(stage, "%s", e)
		}
		return
	}}
}

// spoil changes what a value holds, in place.
func (c *dartCase) spoil(t model.Type, v any, seen map[any]bool) (n int) {
	obj := func(x model.Ref, o any) {
		if x.Kind != model.KData || o == nil || seen[o] {
			return
		}
		seen[o] = true
		for _, f := range x.Data.AllFields() {
			y, err := c.W.Get(o, model.Lower(f.Name))
			if err != nil {
				continue
			}
			n += c.spoil(f.Type, y, seen)
			var z any
			switch a := y.(type) {
			case int64:
				z = a ^ 1
			case dart.Int64:
				z = dart.Int64{V: a.V ^ 1}
			case string:
				z = a + "!"
			case bool:
				z = !a
			case float64:
				z = 1.5 - a
			default:
				continue
			}
			if c.W.Set(o, model.Lower(f.Name), z) == nil {
				n++
			}
		}
	}
	switch x := v.(type) {
	case *dart.List:
		for _, y := range x.V {
			obj(t.Elem, y)
		}
		if len(x.V) > 0 {
			x.V = append(x.V[:0:0], x.V[1:]...)
			n++
		}
	case *dart.Map:
		for _, y := range x.V {
			obj(t.Elem, y)
		}
		if len(x.K) > 0 {
			x.K, x.V = nil, nil
			n++
		}
	case *dart.Obj:
		obj(t.Elem, x)
	}
	return
}

// ---- C14 ----

func dartEnums(r *report.Run, b *dartBatch, rng *model.Rng, judge func(lang string, e *model.Enum, constant, spell func(string) string, nums []int, texts []string) func(res map[string]any) (string, string)) {
	var ts []*dartTodo
	for _, c := range b.Good() {
		for _, e := range c.S.Enums() {
			nums, texts := enumProbe(rng, e, model.Hump)
			verdict := judge("values", e, model.AllUpper, model.Hump, nums, texts)
			ts = append(ts, &dartTodo{c: c, what: "enum " + e.Name, f: func() (string, string) { return dartEnum(c, e, nums, texts, verdict) }})
		}
	}
	dartPerform(r, ts)
}

func dartEnum(c *dartCase, e *model.Enum, nums []int, texts []string, verdict func(map[string]any) (string, string)) (string, string) {
	k := c.Enum(e)
	if k == nil {
		return "enum", "there is no class " + model.Hump(e.Name)
	}
	pair := func(o any) []any {
		v, err1 := c.W.Get(o, "value")
		n, err2 := c.W.Get(o, "name")
		if err1 != nil || err2 != nil {
			panic(dartBad{fmt.Sprint(err1, err2)})
		}
		return []any{v, n}
	}
	res := map[string]any{}
	var key, detail string
	if err := dartTry(func() {
		vals, err := c.W.Static(k, "values", nil)
		if err != nil {
			panic(dartBad{"values: " + err.Error()})
		}
		l, ok := vals.(*dart.List)
		if !ok {
			panic(dartBad{"values is a " + dart.TypeName(vals)})
		}
		list := []any{}
		for _, o := range l.V {
			list = append(list, pair(o))
		}
		consts, of := map[string]any{}, map[any]string{}
		for _, m := range k.Members {
			if m.Static && m.Kind == "field" && m.Name != "values" {
				o, err := c.W.Static(k, m.Name, nil)
				if err != nil {
					panic(dartBad{m.Name + ": " + err.Error()})
				}
				consts[m.Name] = pair(o)
				of[o] = m.Name
			}
		}
		look := func(f string, x any) map[string]any {
			o, err := c.W.Static(k, f, []any{x})
			if err != nil || o == nil {
				return map[string]any{"none": true}
			}
			p := pair(o)
			return map[string]any{"value": p[0], "name": p[1], "same": of[o] != ""}
		}
		vs, ns := []any{}, []any{}
		for _, n := range nums {
			vs = append(vs, look("valueOf", int64(n)))
		}
		for _, s := range texts {
			ns = append(ns, look("nameOf", s))
		}
		eq := true
		for i, a := range l.V {
			for j, b := range l.V {
				g, err := c.W.Equal(a, b)
				eq = eq && err == nil && g == (i == j)
			}
			if s, err := c.W.Call(a, "toString", nil, nil); err != nil || s != list[i].([]any)[1] {
				eq = false
			}
		}
		res = map[string]any{"list": list, "consts": consts, "values": vs, "names": ns, "eq": eq}
	}); err != "" {
		return "enum", err
	}
	key, detail = verdict(res)
	return key, detail
}

// ---- C16 and C31 ----

// dartNative is a function value of the harness.
func dartNative(f func(args []any) any) *dart.Closure {
	return &dart.Closure{Native: func(args []any, _ map[string]any) any { return f(args) }}
}

func dartRoutes(r *report.Run, b *dartBatch, tabs map[*model.Server][]*routeTable) {
	var ts []*dartTodo
	type res struct {
		s *model.Server
		t *routeTable
	}
	var got []*res
	for _, c := range b.Good() {
		for _, s := range c.S.Servers() {
			x := &res{s: s}
			got = append(got, x)
			ts = append(ts, &dartTodo{c: c, what: "server " + s.Name, f: func() (string, string) {
				if err := dartTry(func() { x.t = c.routes(s) }); err != "" {
					return "routes", err
				}
				return "", ""
			}})
		}
	}
	dartPerform(r, ts)
	for _, x := range got {
		if x.t != nil {
			tabs[x.s] = append(tabs[x.s], x.t)
		}
	}
}

func (c *dartCase) must(v any, err error) any {
	if err != nil {
		panic(dartBad{err.Error()})
	}
	return v
}

// client makes a client of s; send is given each request.
func (c *dartCase) client(s *model.Server, send func(args []any) any) any {
	k := c.class(s.File, "server", s.Name+"_client")
	if k == nil {
		k = c.W.Class(s.File.Base()+".server.dart", model.Hump(s.Name)+"Client")
	}
	if k == nil {
		panic(dartBad{"there is no client of " + s.Name})
	}
	o := c.must(c.W.New(k, "", []any{&dart.Obj{N: "Client", F: map[string]any{}}}, nil))
	c.W.Host = func(name string, this *dart.Obj, args []any, named map[string]any, ta []*dart.Type) (any, bool) {
		if name == "ServerClient.invoke" {
			return send(args), true
		}
		return nil, false
	}
	return o
}

// router makes a router of s over an implementation of our own.
func (c *dartCase) router(s *model.Server, run func(m string, args []any) any) any {
	k := c.W.Class(s.File.Base()+".server.dart", model.Hump(s.Name)+"Router")
	if k == nil {
		panic(dartBad{"there is no router of " + s.Name})
	}
	// a class of the application that implements the interface
	impl := &dart.Class{Name: "_Implementation", Lib: c.Server(s).Lib, Impl: []*dart.Type{{Name: model.Hump(s.Name)}}}
	o := &dart.Obj{C: impl, F: map[string]any{}}
	for _, m := range s.AllMethods() {
		n := m.Name
		impl.Members = append(impl.Members, &dart.Member{Kind: "field", Name: model.Lower(n), Class: impl, Lib: impl.Lib})
		o.F[model.Lower(n)] = dartNative(func(args []any) any { return run(n, args) })
	}
	return c.must(c.W.New(k, "", []any{o}, nil))
}

func (c *dartCase) text(o any, n string) string {
	s, ok := c.must(c.W.Get(o, n)).(string)
	if !ok {
		panic(dartBad{n + " is no string"})
	}
	return s
}

func (c *dartCase) routes(s *model.Server) *routeTable {
	t := &routeTable{lang: "Dart", sent: map[string][]string{}, reach: map[string][]string{}, replay: c.Replay}
	cur := ""
	cl := c.client(s, func(args []any) any {
		if len(args) > 0 {
			t.sent[cur] = append(t.sent[cur], t.client+"/"+fmt.Sprint(args[0]))
		}
		return &dart.Future{Pending: true}
	})
	t.client = c.text(cl, "name")
	for _, m := range s.AllMethods() {
		cur = m.Name
		c.fresh()
		c.must(c.W.Call(cl, model.Lower(m.Name), []any{c.sample(m.Param)}, nil))
	}
	log := []string{}
	rt := c.router(s, func(m string, args []any) any {
		log = append(log, m)
		return &dart.Future{}
	})
	t.server = c.text(rt, "name")
	names, ok := c.must(c.W.Get(rt, "invokeNames")).(*dart.Map)
	if !ok {
		panic(dartBad{"invokeNames is no map"})
	}
	for i, k := range names.K {
		log = nil
		inv := c.must(c.W.Get(names.V[i], "invoke"))
		var arg any
		for _, m := range s.AllMethods() { // the argument's type is the method's own: the first that is accepted
			c.fresh()
			arg = c.sample(m.Param)
			log = nil
			if _, err := c.W.Call(inv, "", []any{&dart.Obj{N: "Context", F: map[string]any{}}, arg}, nil); err == nil || len(log) > 0 {
				break
			}
		}
		t.reach[t.server+"/"+fmt.Sprint(k)] = append([]string{}, log...)
	}
	return t
}

// sample is some value of d.
func (c *dartCase) sample(d *model.Data) any {
	if needsEmpty(d, map[*model.Data]bool{}) {
		return c.hollow(d)
	}
	return c.obj(d, model.NewRng(1).DataVal(d, 1))
}

// hollow is an object of d's class without members, for where values cannot be made.
func (c *dartCase) hollow(d *model.Data) any {
	k := c.W.Class(d.File.Base()+".data.dart", "_"+model.Hump(d.Name))
	if k == nil {
		k = c.Data(d)
	}
	return &dart.Obj{C: k, F: map[string]any{}}
}

func dartSide(r *report.Run, b *dartBatch) *side {
	sd := &side{lang: "Dart"}
	group := func(calls []*xcall, froms func(*xcall) []string, f func(c *dartCase, x *xcall, from string) (string, string)) {
		var ts []*dartTodo
		for _, x := range calls {
			c := b.Cases[x.n]
			if c.Err != "" {
				continue
			}
			for _, from := range froms(x) {
				ts = append(ts, &dartTodo{c: c, what: "server " + x.s.Name, f: func() (string, string) { return f(c, x, from) }})
			}
		}
		dartPerform1(r, ts)
	}
	sd.send = func(calls []*xcall, froms func(*xcall) []string, f func(x *xcall, from, path, body string, ret model.Obj, err string) (string, string)) {
		group(calls, froms, func(c *dartCase, x *xcall, from string) (string, string) {
			path, body, fail, name := "", "", "", ""
			var ret model.Obj
			fail = dartTry(func() {
				cl := c.client(x.s, func(args []any) any {
					if len(args) < 4 {
						panic(dartBad{"invoke has too few arguments"})
					}
					path = name + "/" + fmt.Sprint(args[0])
					body = c.doc(args[2])
					if from == "" || x.m.Result == nil {
						return &dart.Future{Pending: true}
					}
					m, err := dart.Decode(x.reply[from])
					if err != nil {
						panic(dartBad{err.Error()})
					}
					return &dart.Future{V: c.must(c.W.Call(args[3], "", []any{m}, nil))}
				})
				name = c.text(cl, "name")
				v := c.must(c.W.Call(cl, model.Lower(x.m.Name), []any{c.obj(x.m.Param, x.arg)}, nil))
				if fu, ok := v.(*dart.Future); ok {
					v = fu.V
				}
				if from != "" && v != nil && x.m.Result != nil {
					ret = c.read(x.m.Result, v)
				}
			})
			return f(x, from, path, body, ret, fail)
		})
	}
	sd.serve = func(calls []*xcall, froms func(*xcall) []string, f func(x *xcall, from string, log []any, reply, err string) (string, string)) {
		routers := map[*model.Server]any{} // the same routers serve all requests
		var run func(s *model.Server, m string, args []any) any
		group(calls, froms, func(c *dartCase, x *xcall, from string) (string, string) {
			var log []any
			reply, fail, none := "", "", true
			fail = dartTry(func() {
				for _, s := range c.S.Servers() {
					if routers[s] == nil {
						routers[s] = c.router(s, func(m string, args []any) any { return run(s, m, args) })
					}
					rt := routers[s]
					ctx := &dart.Obj{N: "Context", F: map[string]any{}}
					run = func(s *model.Server, m string, args []any) any {
						e := map[string]any{"method": m, "here": s == x.s, "server": s.Name}
						log = append(log, e)
						if s == x.s && m == x.m.Name {
							e["arg"] = c.read(x.m.Param, args[0])
							e["ctx"] = len(args) > 1 && args[1] == any(ctx)
							if x.m.Result != nil {
								return &dart.Future{V: c.obj(x.m.Result, x.res)}
							}
						}
						return &dart.Future{}
					}
					name := c.text(rt, "name")
					names, ok := c.must(c.W.Get(rt, "invokeNames")).(*dart.Map)
					if !ok {
						panic(dartBad{"invokeNames is no map"})
					}
					for i, k := range names.K {
						if name+"/"+fmt.Sprint(k) != x.path[from] {
							continue
						}
						none = false
						l := &dart.List{V: []any{}}
						for _, b := range []byte(x.body[from]) {
							l.V = append(l.V, int64(b))
						}
						inv := names.V[i]
						arg := c.await(c.must(c.W.Call(c.must(c.W.Get(inv, "toData")), "", []any{l}, nil)))
						ret := c.await(c.must(c.W.Call(c.must(c.W.Get(inv, "invoke")), "", []any{ctx, arg}, nil)))
						if x.m.Result == nil && ret != nil {
							panic(dartBad{"a method without a result gives one: " + dart.Show(ret)})
						}
						if ret != nil {
							out := c.await(c.must(c.W.Call(c.must(c.W.Get(inv, "formData")), "", []any{ret}, nil)))
							if bl, ok := out.(*dart.List); ok {
								var bs []byte
								for _, y := range bl.V {
									n, _ := y.(int64)
									bs = append(bs, byte(n))
								}
								reply = string(bs)
							}
						}
					}
				}
			})
			if none && fail == "" {
				return "no-route", fmt.Sprintf("%s.%s is sent by %s under %s, which no Dart router answers", x.s.Name, x.m.Name, from, x.path[from])
			}
			return f(x, from, log, reply, fail)
		})
	}
	return sd
}

func (c *dartCase) await(v any) any {
	if f, ok := v.(*dart.Future); ok {
		return f.V
	}
	return v
}

// dartPerform1 is dartPerform, one operation after the other.
func dartPerform1(r *report.Run, ts []*dartTodo) {
	for i, t := range ts {
		t.c.fresh()
		k, d := t.f()
		if i%397 == 0 {
			r.Sample(map[string]any{"dart": t.what, "verdict": k})
		}
		if k != "" {
			r.Violation("dart-"+k, t.what+": "+d, t.c.Replay(t.what+"\n"+d))
		}
	}
}

// ---- C27 ----

func dartInherit(r *report.Run, b *dartBatch, rng *model.Rng) {
	var ts []*dartTodo
	for _, c := range b.Good() {
		for _, d := range c.S.Datas() {
			ts = append(ts, dartMembers(r, c, d))
			v := fullVal(rng, d)
			ts = append(ts, &dartTodo{c: c, what: "data " + d.Name + " value " + model.Show(v), f: func() (key, detail string) {
				if e := dartTry(func() {
					o := c.obj(d, v)
					text := c.doc(o)
					if e := keysOf(d, v, text); e != "" {
						key, detail = "keys", e+"\ndocument "+text
						return
					}
					for _, a := range d.Ancestors() {
						part := model.Obj{}
						for _, f := range a.AllFields() {
							part[f.Name] = v[f.Name]
						}
						r.Count("values used as an ancestor (Dart)", 1)
						if e := model.EqualObj(a, part, c.read(a, o), tsCmp, a.Name); e != "" {
							key, detail = "base-reads", e
							return
						}
						if e := model.EqualObj(a, part, c.read(a, c.parse(a, text)), tsCmp, a.Name); e != "" {
							key, detail = "base-parses", e
							return
						}
					}
				}); e != "" {
					return "base", e
				}
				return
			}})
		}
		for _, s := range c.S.Servers() {
			ts = append(ts, dartMethods(r, c, s))
		}
	}
	dartPerform(r, ts)
}
