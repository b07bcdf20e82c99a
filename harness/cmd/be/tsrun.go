package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"verif/harness/internal/cli"
	"verif/harness/internal/gows"
	"verif/harness/internal/model"
	"verif/harness/internal/report"
	"verif/harness/internal/tsws"
)

func init() {
	checks["C23"] = c23
	checks["C24"] = c24
	checks["C25"] = c25
}

var tsCmp = model.Cmp{}

// tsZero is what a member of a fresh TypeScript value holds; ok is false where this is not laid down.
func tsZero(t model.Type) (v any, ok bool) {
	if t.IsNull() {
		return nil, true
	}
	if t.Cont != model.None {
		return model.List{}, true
	}
	return tsZeroRef(t.Elem)
}

func tsZeroRef(x model.Ref) (any, bool) {
	switch {
	case x.Kind == model.KEnum:
		for _, it := range x.Enum.Items {
			if it.Value == 0 {
				return "0", true
			}
		}
		return nil, false
	case x.Kind == model.KData:
		o := model.Obj{}
		for _, f := range x.Data.AllFields() {
			v, ok := tsZero(f.Type)
			if !ok {
				return nil, false
			}
			o[f.Name] = v
		}
		return o, true
	case x.Base == model.Date:
		return nil, false
	}
	return model.DefaultRef(x), true
}

// legalZero says whether v can be what an absent member reads as: the default, or, for an enum
// without item 0 and for a date, any value of the type.
func legalZero(t model.Type, v any) string {
	if v == nil {
		if t.IsNull() {
			return ""
		}
		return "null where none is allowed"
	}
	if t.IsNull() {
		return "not null"
	}
	if t.Cont != model.None {
		if l, ok := v.([]any); ok && len(l) == 0 {
			return ""
		}
		return "not empty"
	}
	x := t.Elem
	switch {
	case x.Kind == model.KEnum:
		zero := false
		for _, it := range x.Enum.Items {
			zero = zero || it.Value == 0
		}
		for _, it := range x.Enum.Items {
			if fmt.Sprint(it.Value) == v && (!zero || it.Value == 0) {
				return ""
			}
		}
		return "not the default of the enum"
	case x.Kind == model.KData:
		o, ok := v.(map[string]any)
		if !ok {
			return "not a value"
		}
		for _, f := range x.Data.AllFields() {
			if e := legalZero(f.Type, o[f.Name]); e != "" {
				return f.Name + ": " + e
			}
		}
		return ""
	case x.Base == model.Date:
		if _, ok := v.(string); ok {
			return ""
		}
		return "not a date"
	}
	return model.EqualVal(t, model.DefaultRef(x), v, tsCmp, "")
}

func c23() {
	r := report.New("C23", "a value of a random generated data type encoded by TypeScript, decoded again by TypeScript and by Go, encoded by Go and decoded by TypeScript, or a document with missing, null and unknown keys decoded; non-trivial: the type has at least three members")
	o := tsOpts
	o.NoPkg = false
	o.EmptyEnum = false
	o.MapKeys = nil
	bin := cli.Build(r)
	dl := r.Budget(100*time.Second, 12*time.Minute)
	for n := 0; n < r.N(9, 80) && time.Now().Before(dl); n++ {
		tb, gb := tsws.New(r, bin), gows.New(r, bin)
		for i := 0; i < 30; i++ {
			rng := model.NewRng(r.Seed*17_300_003 + int64(n*1000+i))
			s := model.GenSchema(rng, o)
			src := s.Sources(nil)
			tb.Add(s, src)
			gb.Add(s, src)
		}
		done := make(chan bool)
		go func() { gb.Compile(); close(done) }()
		tb.Compile()
		<-done
		tb.Report()
		gb.Report()
		interchange(r, tb, gb, model.NewRng(r.Seed*19_300_003+int64(n)))
		tb.Drop()
		gb.Drop()
	}
	r.Finish()
}

func interchange(r *report.Run, tb *tsws.Batch, gb *gows.Batch, rng *model.Rng) {
	type job struct {
		tc       *tsws.Case
		gc       *gows.Case
		d        *model.Data
		v        model.Obj
		bytes    bool
		doc, gdo string
	}
	var jobs []*job
	var tt []*tsTodo
	var gt []*todo
	for i, tc := range tb.Cases {
		gc := gb.Cases[i]
		if tc.Err != "" || gc.Err != "" {
			continue
		}
		r.Count("schemas compiled in both languages", 1)
		for _, d := range tc.S.Datas() {
			fs := d.AllFields()
			for _, f := range fs {
				r.Seen("member types", kindOf(f.Type))
			}
			for k := 0; k < 6; k++ {
				v := rng.DataVal(d, 3)
				j := &job{tc: tc, gc: gc, d: d, v: v, bytes: hasBytes(d, map[*model.Data]bool{})}
				jobs = append(jobs, j)
				r.Case(tc.Data(d)+model.Show(v), len(fs) >= 3)
				what := "data " + d.Name + " value " + model.Show(v)
				tt = append(tt, &tsTodo{c: tc, what: what, op: tsws.Op{"op": "json", "t": tc.Data(d), "v": v}, f: func(res map[string]any) (string, string) {
					doc, _ := res["text"].(string)
					if e := tsCmp.CheckWire(d, v, decode(doc), d.Name); e != "" {
						return "ts-wire", e + "\ndocument " + doc
					}
					if e := model.EqualObj(d, v, asMap(res["same"]), tsCmp, d.Name); e != "" {
						return "ts-encoding-changes", e
					}
					if e := exact(d, v, res["back"]); e != "" {
						return "ts-roundtrip", e + "\ndocument " + doc
					}
					j.doc = doc
					r.Count("TypeScript encodings", 1)
					return "", ""
				}})
				gt = append(gt, &todo{c: gc, what: what, op: &gows.Op{Op: "json", T: gc.Data(d), V: gows.ToGo(d, v)}, f: func(res gows.Res) (string, string) {
					j.gdo, _ = res["json"].(string)
					if res["err"] != nil || j.gdo == "" {
						return "go-json-error", fmt.Sprint(res["err"])
					}
					return "", ""
				}})
			}
			tt = append(tt, fresh(tc, d), absent(r, tc, d, rng), absent(r, tc, d, rng), absent(r, tc, d, rng))
		}
	}
	tsPerform(r, tb, tt)
	perform(r, gb, gt)
	// each reads what the other wrote
	tt, gt = nil, nil
	for _, j := range jobs {
		what := "data " + j.d.Name + " value " + model.Show(j.v)
		if j.doc != "" {
			gt = append(gt, &todo{c: j.gc, what: what, op: &gows.Op{Op: "parse", T: j.gc.Data(j.d), Text: j.doc}, f: func(res gows.Res) (string, string) {
				key, e := "", ""
				if res["err"] != nil {
					key, e = "go-reads-ts", fmt.Sprint(res["err"])
				} else if e = model.EqualObj(j.d, j.v, gows.FromGo(j.d, asMap(res["back"])), goCmp, j.d.Name); e != "" {
					key = "go-reads-ts"
				}
				r.Count("documents of TypeScript read by Go", 1)
				return key, e + "\ndocument " + j.doc
			}})
		}
		if j.gdo != "" {
			tt = append(tt, &tsTodo{c: j.tc, what: what, op: tsws.Op{"op": "parse", "t": j.tc.Data(j.d), "text": j.gdo}, f: func(res map[string]any) (string, string) {
				if e := model.EqualObj(j.d, j.v, asMap(res["v"]), goCmp, j.d.Name); e != "" {
					if j.bytes && model.EqualObj(j.d, noBytes(j.d, j.v), asMap(res["v"]), goCmp, j.d.Name) == "" {
						return "go-uint8-list", e + "\ndocument " + j.gdo
					}
					return "ts-reads-go", e + "\ndocument " + j.gdo
				}
				r.Count("documents of Go read by TypeScript", 1)
				return "", ""
			}})
		}
	}
	perform(r, gb, gt)
	tsPerform(r, tb, tt)
}

// noBytes is v with every list of uint8 empty.
func noBytes(d *model.Data, v model.Obj) model.Obj {
	out := model.Obj{}
	for _, f := range d.AllFields() {
		x := v[f.Name]
		t := f.Type
		switch {
		case x == nil:
		case isBytes(t):
			x = model.List{}
		case t.Elem.Kind != model.KData:
		case t.Cont == model.None:
			x = noBytes(t.Elem.Data, x.(model.Obj))
		default:
			l := model.List{}
			for _, e := range x.(model.List) {
				if p, ok := e.(model.List); ok {
					q := p[1]
					if q != nil {
						q = noBytes(t.Elem.Data, q.(model.Obj))
					}
					e = model.List{p[0], q}
				} else if e != nil {
					e = noBytes(t.Elem.Data, e.(model.Obj))
				}
				l = append(l, e)
			}
			x = l
		}
		out[f.Name] = x
	}
	return out
}

// exact compares values and finds members that do not belong.
func exact(d *model.Data, want model.Obj, got any) string {
	g := asMap(got)
	if e := model.EqualObj(d, want, g, tsCmp, d.Name); e != "" {
		return e
	}
	for k := range g {
		if strings.HasPrefix(k, "?") {
			return d.Name + ": odd member " + k + ": " + model.Show(g[k])
		}
	}
	return ""
}

// fresh checks a new value, and that one read from an empty document is the same.
func fresh(c *tsws.Case, d *model.Data) *tsTodo {
	return &tsTodo{c: c, what: "a new " + d.Name, op: tsws.Op{"op": "zero", "t": c.Data(d)}, f: func(res map[string]any) (string, string) {
		for _, k := range []string{"v", "empty"} {
			o := asMap(res[k])
			for _, f := range d.AllFields() {
				if e := legalZero(f.Type, o[f.Name]); e != "" {
					return "ts-default", fmt.Sprintf("%s: member %s is %s: %s", k, f.Name, model.Show(o[f.Name]), e)
				}
			}
		}
		return "", ""
	}}
}

// absent checks the reading of a document without some members, with null and unknown ones.
func absent(r *report.Run, c *tsws.Case, d *model.Data, rng *model.Rng) *tsTodo {
	v := rng.DataVal(d, 3)
	w := model.Wire(d, v)
	gone := map[string]bool{}
	for _, f := range d.AllFields() {
		switch {
		case rng.P(0.25):
			delete(w, model.Snake(f.Name))
			gone[f.Name] = true
		case rng.P(0.1):
			w[model.Snake(f.Name)] = nil
			gone[f.Name] = true
		}
	}
	if rng.P(0.5) {
		w["zz_unknown"] = model.Pick(rng, []any{nil, 1, "x", []any{1, "a"}, map[string]any{"a": nil}})
	}
	text, _ := json.Marshal(w)
	r.Case(c.Data(d)+string(text), len(d.AllFields()) >= 3)
	return &tsTodo{c: c, what: "data " + d.Name + " document " + string(text), op: tsws.Op{"op": "parse", "t": c.Data(d), "text": string(text)}, f: func(res map[string]any) (string, string) {
		g := asMap(res["v"])
		for _, f := range d.AllFields() {
			x, ok := g[f.Name]
			if !ok {
				return "ts-parse", "member " + f.Name + " is missing"
			}
			if gone[f.Name] {
				if e := legalZero(f.Type, x); e != "" {
					return "ts-parse-absent", fmt.Sprintf("member %s is %s: %s", f.Name, model.Show(x), e)
				}
			} else if e := model.EqualVal(f.Type, v[f.Name], x, tsCmp, d.Name+"."+f.Name); e != "" {
				return "ts-parse", e
			}
		}
		for k := range g {
			if strings.HasPrefix(k, "?") {
				return "ts-parse", "odd member " + k
			}
		}
		r.Count("documents with absent members", 1)
		return "", ""
	}}
}

// ---- copies ----

func c24() {
	r := report.New("C24", "a value of a random generated data type copied, after which everything that can be changed in the copy, and in another turn in the original, is changed; non-trivial: the changes reach at least one nested value, list, map or date")
	o := tsOpts
	o.EmptyEnum = false
	tsRun(r, 9, 80, 40, o, nil, func(b *tsws.Batch, rng *model.Rng) {
		var ts []*tsTodo
		for _, c := range b.Good() {
			for _, d := range c.S.Datas() {
				for _, f := range d.AllFields() {
					r.Seen("member types", kindOf(f.Type))
				}
				for k := 0; k < 8; k++ {
					v := rng.DataVal(d, 3)
					ts = append(ts, &tsTodo{c: c, what: "data " + d.Name + " value " + model.Show(v), op: tsws.Op{"op": "clone", "t": c.Data(d), "v": v}, f: func(res map[string]any) (string, string) {
						n, _ := res["changes"].(json.Number)
						k, _ := n.Int64()
						r.Case(c.Data(d)+model.Show(v), k > 1)
						r.Count("changes to copies", k)
						if res["own"] != true || res["cls"] != true {
							return "clone-class", "the copy is the original itself or of another class"
						}
						if e := exact(d, v, res["at"]); e != "" {
							return "clone-differs", e
						}
						if res["text"] != res["first"] {
							return "clone-differs", fmt.Sprintf("the copy encodes to %v, the original to %v", res["text"], res["first"])
						}
						if e := exact(d, v, res["orig"]); e != "" {
							return "clone-shares", "after changes to the copy the original: " + e
						}
						if e := exact(d, v, res["copy"]); e != "" {
							return "clone-shares", "after changes to the original the copy: " + e
						}
						return "", ""
					}})
				}
			}
		}
		tsPerform(r, b, ts)
	})
}

// ---- verification ----

func c25() {
	r := report.New("C25", "a value at or around the bounds of the declared formats given to the generated TypeScript check of a member, and its text to the Dart check; non-trivial: the reference breaks a format")
	dartVerify(r, cli.Build(r))
	o := tsOpts
	o.EmptyEnum = false
	tsRun(r, 9, 80, 30, o, func(rng *model.Rng, s *model.Schema) {
		model.AddDomainTags(rng, s, model.Domain{Verify: true})
	}, func(b *tsws.Batch, rng *model.Rng) {
		var ts []*tsTodo
		for _, c := range b.Good() {
			for _, d := range c.S.Datas() {
				for _, bf := range d.BoundFields() {
					if !model.HasTag(bf.Tags, "verify") {
						continue
					}
					r.Seen("verified member types", kindOf(bf.Type))
					for k := 0; k < 10; k++ {
						v := rng.VerifyVal(bf, 1)
						if x := bf.Type.Elem; x.Kind == model.KEnum && bf.Type.Cont == model.None && v != nil && model.EnumItem(x.Enum, v) == nil {
							continue // no such value exists in TypeScript
						}
						want := bf.Verdict(v)
						r.Case(c.Data(d)+bf.Name+model.Show(v), want != nil)
						op := tsws.Op{"op": "verify", "mod": c.Mod(d.File, "verify"), "fn": "verify" + model.Hump(d.Name) + "_" + model.Hump(bf.Name), "type": c.TypeDesc(bf.Type), "v": v}
						ts = append(ts, &tsTodo{c: c, what: "data " + d.Name + " member " + bf.Name + " " + kindOf(bf.Type) + " " + model.Show(v), op: op, f: func(res map[string]any) (string, string) {
							if res["missing"] == true {
								return "ts-verify-missing", "there is no check " + fmt.Sprint(op["fn"])
							}
							got, _ := res["got"].([]any)
							if len(got) != 1 {
								return "ts-verify-answers", fmt.Sprintf("the check answered %d times: %s", len(got), model.Show(got))
							}
							if res["kept"] != true {
								return "ts-verify-changes", "the check changed the value"
							}
							if want == nil {
								r.Count("values that satisfy their formats", 1)
								if got[0] != nil {
									return "ts-verify-rejects", fmt.Sprintf("refused with %v", got[0])
								}
								return "", ""
							}
							r.Count("values that break a format", 1)
							if got[0] == nil {
								return "ts-verify-accepts", "accepted, it breaks " + want.Item.Name
							}
							msg := "T(" + model.Lower(want.Code.Name) + "Lang." + model.Hump(want.Item.Name) + ")"
							if got[0] != msg {
								return "ts-verify-error", fmt.Sprintf("refused with %v, the first broken format is %s", got[0], want.Item.Name)
							}
							return "", ""
						}})
					}
				}
			}
		}
		tsPerform(r, b, ts)
	})
}
