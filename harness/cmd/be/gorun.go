package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/harness/internal/cli"
	"verif/harness/internal/gows"
	"verif/harness/internal/model"
	"verif/harness/internal/report"
)

func init() {
	checks["C12"] = c12
	checks["C13"] = c13
	checks["C15"] = c15
	checks["C21"] = c21
}

// goRun generates and compiles batches of schemas and hands each to f.
func goRun(r *report.Run, quick, thorough, per int, o model.Opts, prep func(*model.Rng, *model.Schema), f func(b *gows.Batch, rng *model.Rng)) {
	bin := cli.Build(r)
	dl := r.Budget(100*time.Second, 12*time.Minute)
	for n := 0; n < r.N(quick, thorough) && time.Now().Before(dl); n++ {
		b := gows.New(r, bin)
		for i := 0; i < per; i++ {
			rng := model.NewRng(r.Seed*7_000_003 + int64(n*1000+i))
			s := model.GenSchema(rng, o)
			if prep != nil {
				prep(rng, s)
			}
			b.Add(s, s.Sources(nil))
		}
		b.Compile()
		b.Report()
		r.Count("schemas compiled", int64(len(b.Good())))
		f(b, model.NewRng(r.Seed*11_000_003+int64(n)))
		b.Drop()
	}
	r.Finish()
}

// todo is an operation with what judges its result.
type todo struct {
	c    *gows.Case
	op   *gows.Op
	what string
	f    func(res gows.Res) (key, detail string)
}

// perform runs operations and reports the verdicts.
func perform(r *report.Run, b *gows.Batch, ts []*todo) {
	ops := make([]*gows.Op, len(ts))
	for i, t := range ts {
		ops[i] = t.op
	}
	for i, x := range b.Run(ops) {
		t := ts[i]
		res, _ := x.(gows.Res)
		key, detail := "", ""
		switch {
		case res == nil:
			key, detail = "driver-answer", fmt.Sprintf("no answer: %v", x)
		case res["panic"] != nil:
			key, detail = "panic", fmt.Sprint(res["panic"], "\n", res["stack"])
		case res["misfit"] != nil:
			key, detail = "misfit", fmt.Sprint(res["misfit"])
		default:
			key, detail = t.f(res)
		}
		sample(r, i, t.what, t.op, res)
		if key != "" {
			in, _ := json.MarshalIndent(t.op, "", " ")
			out, _ := json.MarshalIndent(res, "", " ")
			r.Violation(key, t.what+": "+detail, t.c.Replay(fmt.Sprintf("%s\n%s\noperation %s\nobserved %s", t.what, detail, in, out)))
		}
	}
}

// sample keeps the first operations of a run, with what was observed, for the evidence.
func sample(r *report.Run, i int, what string, op, res any) {
	if i > 1 {
		return
	}
	cut := func(x any) string {
		b, _ := json.Marshal(x)
		if len(b) > 600 {
			b = append(b[:600:600], "..."...)
		}
		return string(b)
	}
	if len(what) > 200 {
		what = what[:200] + "..."
	}
	r.Sample(map[string]string{"what": what, "operation": cut(op), "observed": cut(res)})
}

const goZeroTime = "-62135596800000"

// goZero is what a member of a fresh Go value holds.
func goZero(t model.Type) any {
	if t.Cont != model.None || t.IsNull() {
		return nil
	}
	return goZeroRef(t.Elem)
}

func goZeroRef(x model.Ref) any {
	if x.Null {
		return nil
	}
	if x.Kind == model.KData {
		o := model.Obj{}
		for _, f := range x.Data.AllFields() {
			o[f.Name] = goZero(f.Type)
		}
		return o
	}
	if x.Kind == model.KBase && x.Base == model.Date {
		return goZeroTime
	}
	return model.DefaultRef(x)
}

// goDefault is what the getter of a null member gives.
func goDefault(t model.Type) any {
	if t.Cont != model.None {
		return nil
	}
	x := t.Elem
	x.Null = false
	return goZeroRef(x)
}

var goCmp = model.Cmp{EmptyIsNull: true, AbsentOK: true}

// uint8Arrays says whether a member of d, at any depth, is a list of uint8, which Go writes in another form.
func hasBytes(d *model.Data, seen map[*model.Data]bool) bool {
	if seen[d] {
		return false
	}
	seen[d] = true
	for _, f := range d.AllFields() {
		if isBytes(f.Type) || f.Type.Elem.Kind == model.KData && hasBytes(f.Type.Elem.Data, seen) {
			return true
		}
	}
	return false
}

func isBytes(t model.Type) bool {
	return t.Cont == model.Array && t.Elem.Kind == model.KBase && t.Elem.Base == model.Uint8 && !t.Elem.Null
}

func decode(s string) any {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var v any
	if d.Decode(&v) != nil {
		return nil
	}
	return v
}

func c12() {
	r := report.New("C12", "a value of a random generated data type encoded and decoded, or a document with missing and unknown keys decoded; non-trivial: the type has at least three members")
	goRun(r, 10, 80, 30, goOpts, nil, func(b *gows.Batch, rng *model.Rng) {
		var ts []*todo
		for _, c := range b.Good() {
			for _, d := range c.S.Datas() {
				bytes := hasBytes(d, map[*model.Data]bool{})
				fs := d.AllFields()
				for _, f := range fs {
					r.Seen("member types", kindOf(f.Type))
				}
				for i := 0; i < 8; i++ {
					v := rng.DataVal(d, 3)
					if i == 0 {
						for _, f := range fs {
							v[f.Name] = goZero(f.Type)
						}
					}
					r.Case(c.Data(d)+model.Show(v), len(fs) >= 3)
					t := &todo{c: c, what: "data " + d.Name + " value " + model.Show(v), op: &gows.Op{Op: "json", T: c.Data(d), V: gows.ToGo(d, v)}}
					t.f = func(res gows.Res) (string, string) {
						if res["err"] != nil {
							return "json-error", fmt.Sprint(res["err"])
						}
						doc, _ := res["json"].(string)
						if e := goCmp.CheckWire(d, v, decode(doc), d.Name); e != "" {
							if bytes && (model.Cmp{EmptyIsNull: true, AbsentOK: true, Bytes: true}).CheckWire(d, v, decode(doc), d.Name) == "" {
								return "go-uint8-list", e + "\ndocument " + doc
							}
							return "wire", e + "\ndocument " + doc
						}
						for k, x := range asMap(decode(doc)) {
							if x == nil {
								return "null-written", k + " is written as null: " + doc
							}
						}
						back, _ := res["back"].(map[string]any)
						if e := model.EqualObj(d, v, gows.FromGo(d, back), goCmp, d.Name); e != "" {
							return "roundtrip", e + "\ndocument " + doc
						}
						after, _ := res["after"].(map[string]any)
						if e := model.EqualObj(d, v, gows.FromGo(d, after), goCmp, d.Name); e != "" {
							return "encoding-changes", e
						}
						return "", ""
					}
					ts = append(ts, t)
					r.Count("encodings", 1)
				}
				for i := 0; i < 4; i++ {
					v := rng.DataVal(d, 3)
					w := model.Wire(d, v)
					want := model.Obj{}
					for _, f := range fs {
						want[f.Name] = v[f.Name]
						if rng.P(0.3) {
							delete(w, model.Snake(f.Name))
							want[f.Name] = goZero(f.Type)
						}
						if isBytesIn(f.Type) {
							// the form Go reads for these is not the wire form: C12's known finding
							delete(w, model.Snake(f.Name))
							want[f.Name] = goZero(f.Type)
						}
					}
					if rng.P(0.5) {
						w["zz_unknown"] = model.Pick(rng, []any{nil, 1, "x", []any{1, "a"}, map[string]any{"a": nil}})
					}
					text, _ := json.Marshal(w)
					r.Case(c.Data(d)+string(text), len(fs) >= 3)
					t := &todo{c: c, what: "data " + d.Name + " document " + string(text), op: &gows.Op{Op: "parse", T: c.Data(d), Text: string(text)}}
					t.f = func(res gows.Res) (string, string) {
						if res["err"] != nil {
							return "parse-error", fmt.Sprint(res["err"])
						}
						back, _ := res["back"].(map[string]any)
						if e := model.EqualObj(d, want, gows.FromGo(d, back), goCmp, d.Name); e != "" {
							return "parse", e
						}
						return "", ""
					}
					ts = append(ts, t)
					r.Count("decodings", 1)
				}
			}
		}
		perform(r, b, ts)
	})
}

func isBytesIn(t model.Type) bool {
	return isBytes(t) || t.Elem.Kind == model.KData && hasBytes(t.Elem.Data, map[*model.Data]bool{})
}

func asMap(v any) map[string]any { m, _ := v.(map[string]any); return m }

func kindOf(t model.Type) string {
	n := t.Elem.Base
	switch t.Elem.Kind {
	case model.KEnum:
		n = "enum"
	case model.KData:
		n = "data"
	}
	if t.Elem.Null {
		n += "?"
	}
	switch t.Cont {
	case model.Array:
		n += "[]"
	case model.Map:
		k := t.Key.Base
		if t.Key.Kind == model.KEnum {
			k = "enum"
		}
		n += "<" + k + ">"
	}
	if t.Cont != model.None && t.ContNull {
		n += "?"
	}
	return n
}

// ---- accessors ----

func c13() {
	r := report.New("C13", "a random sequence of setter and getter calls on a value of a random generated data type, every result and the whole value after every step compared with the model; non-trivial: the type has at least two members")
	goRun(r, 10, 80, 30, goOpts, nil, func(b *gows.Batch, rng *model.Rng) {
		var ts []*todo
		for _, c := range b.Good() {
			for _, d := range c.S.Datas() {
				fs := d.AllFields()
				if len(fs) == 0 {
					continue
				}
				for n := 0; n < 3; n++ {
					st := model.Obj{}
					op := &gows.Op{Op: "history", T: c.Data(d)}
					if n == 0 {
						for _, f := range fs {
							st[f.Name] = goZero(f.Type)
						}
					} else {
						st = rng.DataVal(d, 2)
						op.V = gows.ToGo(d, st)
					}
					type step struct {
						f     *model.Field
						set   bool
						x     any
						after model.Obj
						want  any
					}
					var steps []step
					var sig strings.Builder
					add := func(f *model.Field, set bool) {
						s := step{f: f, set: set}
						o := &gows.Op{Op: "get", M: model.Hump(f.Name)}
						if set {
							x := f.Type
							if x.Cont == model.None {
								x.Elem.Null = false
							}
							s.x = rng.TypeVal(x, 2)
							o.Op, o.X = "set", gows.TypeToGo(f.Type, s.x)
							st = copyObj(st)
							st[f.Name] = s.x
						}
						s.after = st
						s.want = st[f.Name]
						if s.want == nil {
							s.want = goDefault(f.Type)
						}
						op.Seq = append(op.Seq, o)
						steps = append(steps, s)
						fmt.Fprintf(&sig, "%v%s%s;", set, f.Name, model.Show(s.x))
					}
					// every member once, then any
					for _, i := range rng.Perm(len(fs)) {
						add(fs[i], rng.P(0.5))
					}
					for k := rng.Range(4, 14); k > 0; k-- {
						add(model.Pick(rng, fs), rng.P(0.6))
					}
					for _, f := range fs {
						add(f, false)
					}
					r.Case(c.Data(d)+sig.String(), len(fs) > 1)
					r.Count("accessor calls", int64(len(steps)))
					ts = append(ts, &todo{c: c, op: op, what: "data " + d.Name, f: func(res gows.Res) (string, string) {
						l, _ := res["steps"].([]any)
						if len(l) != len(steps) {
							return "driver-answer", "too few steps"
						}
						for i, s := range steps {
							o := asMap(l[i])
							at := fmt.Sprintf("step %d, member %s", i, s.f.Name)
							if !s.set {
								t := s.f.Type
								t.Elem.Null = t.Elem.Null && t.Cont != model.None
								if e := model.EqualVal(t, s.want, gows.TypeFromGo(s.f.Type, o["get"]), goCmp, at+": getter"); e != "" {
									return "getter", e
								}
							}
							if e := model.EqualObj(d, s.after, gows.FromGo(d, asMap(o["all"])), model.Cmp{}, at+": value after it"); e != "" {
								return map[bool]string{true: "setter", false: "getter-changes"}[s.set], e
							}
						}
						return "", ""
					}})
				}
			}
		}
		perform(r, b, ts)
	})
}

func copyObj(o model.Obj) model.Obj {
	out := model.Obj{}
	for k, v := range o {
		out[k] = v
	}
	return out
}

// ---- rpc ----

func c15() {
	r := report.New("C15", "a random sequence of calls through generated clients and routers of every server of a schema on one transport; non-trivial: the server has at least two methods")
	o := goOpts
	o.MoreServers = true
	goRun(r, 10, 80, 30, o, func(rng *model.Rng, s *model.Schema) {
		model.AddDomainTags(rng, s, model.Domain{RpcTag: true, Bind: true, Verify: rng.P(0.4)})
	}, func(b *gows.Batch, rng *model.Rng) {
		var ts []*todo
		for _, c := range b.Good() {
			servers := c.S.Servers()
			var all []string
			for _, s := range servers {
				all = append(all, c.Server(s))
			}
			for _, s := range servers {
				ms := s.AllMethods()
				r.Seen("server shapes", fmt.Sprintf("%d methods, %d bases", len(ms), len(s.Extends)))
				ts = append(ts, defaults(r, c, s, rng)...)
				if len(ms) == 0 {
					continue
				}
				for n := 0; n < 3; n++ {
					op := &gows.Op{Op: "calls", T: c.Server(s), Texts: all}
					var calls []call
					for _, i := range append(rng.Perm(len(ms)), randomInts(rng, rng.Range(0, 4), len(ms))...) {
						k, o := newCall(rng, s, ms[i])
						op.Seq = append(op.Seq, o)
						calls = append(calls, k)
					}
					r.Case(c.Server(s)+model.Show(op), len(ms) > 1)
					r.Count("calls", int64(len(calls)))
					ts = append(ts, &todo{c: c, op: op, what: "server " + s.Name, f: func(res gows.Res) (string, string) {
						l, _ := res["steps"].([]any)
						if len(l) != len(calls) {
							return "driver-answer", "too few steps"
						}
						for i, k := range calls {
							if key, e := k.judge(c, asMap(l[i]), fmt.Sprintf("call %d, %s.%s", i, s.Name, k.m.Name)); key != "" {
								return key, e
							}
						}
						return "", ""
					}})
				}
			}
		}
		perform(r, b, ts)
	})
}

// call is one call of a generated method with what its implementation answers.
type call struct {
	s    *model.Server
	m    model.BoundMethod
	arg  model.Obj
	res  model.Obj
	err  string
	tags map[string][]string
}

func newCall(rng *model.Rng, s *model.Server, m model.BoundMethod) (call, *gows.Op) {
	k := call{s: s, m: m, arg: rng.DataVal(m.Param, 2), tags: map[string][]string{}}
	o := &gows.Op{M: model.Hump(m.Name), V: gows.ToGo(m.Param, k.arg)}
	if m.Result != nil {
		k.res = rng.DataVal(m.Result, 2)
		o.X = gows.ToGo(m.Result, k.res)
	}
	if rng.P(0.2) {
		k.err = model.Pick(rng, []string{"refused", "no \"x\"", "错误"})
		o.Err = k.err
	}
	if t := model.TagOf(m.Tags, "tag"); t != nil {
		for _, kv := range t.KVs {
			k.tags[kv.Key] = kv.Values
		}
	}
	return k, o
}

// judge compares what was observed of a call with what it should be.
func (k *call) judge(c *gows.Case, o map[string]any, at string) (string, string) {
	seen, _ := o["calls"].([]any)
	if len(seen) != 1 {
		return "rpc-delivery", fmt.Sprintf("%s arrived %d times: %s (error %v)", at, len(seen), model.Show(seen), o["err"])
	}
	sc := asMap(seen[0])
	if sc["server"] != c.Server(k.s) || sc["method"] != model.Hump(k.m.Name) {
		return "rpc-method", fmt.Sprintf("%s arrived at %v.%v", at, sc["server"], sc["method"])
	}
	if e := model.EqualObj(k.m.Param, k.arg, gows.FromGo(k.m.Param, asMap(sc["arg"])), goCmp, at+": argument"); e != "" {
		return "rpc-argument", e
	}
	if e := model.EqualObj(k.m.Param, k.arg, gows.FromGo(k.m.Param, asMap(o["arg"])), goCmp, at+": argument after the call"); e != "" {
		return "rpc-argument-after", e
	}
	if l, _ := o["ctx"].([]any); len(l) > 0 {
		return "rpc-context", fmt.Sprintf("%s: %v", at, l)
	}
	if k.err != "" {
		if o["err"] != k.err {
			return "rpc-error", fmt.Sprintf("%s: error %v, want %q", at, o["err"], k.err)
		}
		if o["result"] != nil {
			return "rpc-error", at + ": result besides an error"
		}
	} else {
		if o["err"] != nil {
			return "rpc-error", fmt.Sprintf("%s: unexpected error %v", at, o["err"])
		}
		if k.m.Result != nil {
			if o["result"] == nil {
				return "rpc-result", at + ": no result"
			}
			if e := model.EqualObj(k.m.Result, k.res, gows.FromGo(k.m.Result, asMap(o["result"])), goCmp, at+": result"); e != "" {
				return "rpc-result", e
			}
		} else if _, has := o["result"]; has {
			return "rpc-result", at + ": a void method has a result"
		}
	}
	got := map[string][]string{}
	tl, _ := o["tags"].([]any)
	for _, x := range tl {
		p, _ := x.([]any)
		var vs []string
		for _, v := range p {
			vs = append(vs, fmt.Sprint(v))
		}
		if _, twice := got[vs[0]]; twice {
			return "rpc-tag", at + ": tag " + vs[0] + " twice"
		}
		got[vs[0]] = vs[1:]
	}
	if fmt.Sprintf("%q", sorted(got)) != fmt.Sprintf("%q", sorted(k.tags)) {
		return "rpc-tag", fmt.Sprintf("%s: tags %q, want %q", at, got, k.tags)
	}
	return "", ""
}

func sorted(m map[string][]string) (out [][]string) {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		out = append(out, append([]string{k}, m[k]...))
	}
	return
}

func randomInts(rng *model.Rng, n, max int) (out []int) {
	for ; n > 0; n-- {
		out = append(out, rng.Intn(max))
	}
	return
}

// defaults checks what a server without implementation answers, and where it is looked for.
func defaults(r *report.Run, c *gows.Case, s *model.Server, rng *model.Rng) (ts []*todo) {
	ts = append(ts, &todo{c: c, what: "server " + s.Name, op: &gows.Op{Op: "server", T: c.Server(s)}, f: func(res gows.Res) (string, string) {
		if res["notfound"] != true {
			return "get-server", "Get of a server nobody provides is not the NotFound value"
		}
		if res["found"] != true {
			return "get-server", "Get does not give the provided server"
		}
		if res["client"] != res["name"] {
			return "server-name", fmt.Sprintf("client %v, router %v", res["client"], res["name"])
		}
		return "", ""
	}})
	for _, m := range s.AllMethods() {
		arg := rng.DataVal(m.Param, 2)
		op := &gows.Op{Op: "default", T: c.Server(s), M: model.Hump(m.Name), V: gows.ToGo(m.Param, arg)}
		bt, bm := model.Bound(m)
		if bm == nil {
			r.Count("unimplemented calls", 1)
			ts = append(ts, &todo{c: c, op: op, what: "server " + s.Name, f: func(res gows.Res) (string, string) {
				if res["err"] == nil {
					return "default-error", "unimplemented " + m.Name + " gives no error"
				}
				if res["result"] != nil {
					return "default-error", "unimplemented " + m.Name + " gives a result"
				}
				return "", ""
			}})
			continue
		}
		// a bound method hands on to another server
		r.Count("bound calls", 1)
		op.Opt = map[string]string{"bind": c.Server(bt)}
		var sub, full model.Obj
		if bm.Result != nil {
			sub = rng.DataVal(bm.Result, 2)
			op.X = gows.ToGo(bm.Result, sub)
		}
		if rng.P(0.25) {
			op.Err = "refused"
		}
		if m.Result != nil {
			full = model.Obj{}
			for _, f := range m.Result.AllFields() {
				full[f.Name] = goZero(f.Type)
			}
			for _, f := range bm.Result.AllFields() {
				full[f.Name] = sub[f.Name]
			}
		}
		var inv *model.Format
		if model.HasTag(m.Param.Tags, "verify") {
			inv = m.Param.FirstVerdict(arg)
		}
		ts = append(ts, &todo{c: c, op: op, what: "server " + s.Name + " bound method " + m.Name, f: func(res gows.Res) (string, string) {
			seen, _ := res["calls"].([]any)
			if inv != nil {
				if len(seen) != 0 || res["err"] == nil || res["result"] != nil {
					return "bind-verify", fmt.Sprintf("an argument that breaks a format is handed on: %s, error %v", model.Show(seen), res["err"])
				}
				return "", ""
			}
			if len(seen) != 1 || asMap(seen[0])["method"] != model.Hump(bm.Name) {
				return "bind-delivery", fmt.Sprintf("the bound method gets %s (error %v)", model.Show(seen), res["err"])
			}
			if l, _ := res["ctx"].([]any); len(l) > 0 {
				return "bind-context", fmt.Sprint(l...)
			}
			want := model.Obj{}
			for _, f := range bm.Param.AllFields() {
				want[f.Name] = arg[f.Name]
			}
			if e := model.EqualObj(bm.Param, want, gows.FromGo(bm.Param, asMap(asMap(seen[0])["arg"])), goCmp, "argument"); e != "" {
				return "bind-argument", e
			}
			if op.Err != "" {
				if res["err"] != op.Err || res["result"] != nil {
					return "bind-error", fmt.Sprintf("error %v, want %q", res["err"], op.Err)
				}
				return "", ""
			}
			if res["err"] != nil {
				return "bind-error", fmt.Sprintf("unexpected error %v", res["err"])
			}
			if m.Result != nil {
				if e := model.EqualObj(m.Result, full, gows.FromGo(m.Result, asMap(res["result"])), goCmp, "result"); e != "" {
					return "bind-result", e
				}
			}
			return "", ""
		}})
	}
	return
}

// ---- verification ----

func c21() {
	r := report.New("C21", "a value at or around the bounds of the declared formats given to the generated verification of each member and of the whole value; non-trivial: the reference breaks a format")
	o := goOpts
	goRun(r, 10, 80, 25, o, func(rng *model.Rng, s *model.Schema) {
		model.AddDomainTags(rng, s, model.Domain{Verify: true})
	}, func(b *gows.Batch, rng *model.Rng) {
		var ts []*todo
		for _, c := range b.Good() {
			for _, d := range c.S.Datas() {
				bfs := d.BoundFields()
				whole := model.HasTag(d.Tags, "verify")
				any := false
				for _, bf := range bfs {
					any = any || model.HasTag(bf.Tags, "verify")
				}
				if !any {
					continue
				}
				for n := 0; n < 12; n++ {
					v := model.Obj{}
					for _, bf := range bfs {
						v[bf.Name] = rng.VerifyVal(bf, 1)
						// mostly valid, so that later members are reached too
						for try := 0; try < 6 && n%2 == 1 && bf.Verdict(v[bf.Name]) != nil; try++ {
							v[bf.Name] = rng.VerifyVal(bf, 1)
						}
					}
					goV := gows.ToGo(d, v)
					one := func(m string, want *model.Format, what string) {
						r.Case(c.Data(d)+m+model.Show(v), want != nil)
						if want != nil {
							r.Count("values that break a format", 1)
						} else {
							r.Count("values that satisfy their formats", 1)
						}
						ts = append(ts, &todo{c: c, what: "data " + d.Name + " " + what, op: &gows.Op{Op: "verify", T: c.Data(d), M: m, V: goV}, f: func(res gows.Res) (string, string) {
							if want == nil {
								if res["err"] != nil {
									return "verify-rejects", fmt.Sprintf("%s is refused with %v", model.Show(v), res["err"])
								}
								return "", ""
							}
							e, _ := res["err"].(map[string]interface{})
							if res["err"] == nil {
								return "verify-accepts", fmt.Sprintf("%s is accepted, it breaks %s", model.Show(v), want.Item.Name)
							}
							if fmt.Sprint(e["code"]) != strconv.Itoa(want.Item.Value) || e["msg"] != model.Hump(want.Item.Name) {
								return "verify-error", fmt.Sprintf("%s is refused with %v, the first broken format is %s (%d)", model.Show(v), res["err"], want.Item.Name, want.Item.Value)
							}
							if e := model.EqualObj(d, v, gows.FromGo(d, asMap(res["after"])), goCmp, d.Name); e != "" {
								return "verify-changes", e
							}
							return "", ""
						}})
					}
					for _, bf := range bfs {
						if model.HasTag(bf.Tags, "verify") {
							one(model.Hump(bf.Name), bf.Verdict(v[bf.Name]), "member "+bf.Name+" "+kindOf(bf.Type)+" "+model.Show(v[bf.Name]))
							r.Seen("verified member types", kindOf(bf.Type))
						}
					}
					if whole {
						one("", d.FirstVerdict(v), "as a whole")
					}
				}
			}
		}
		perform(r, b, ts)
	})
}
