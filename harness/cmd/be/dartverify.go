package main

import (
	"fmt"
	"strconv"
	"time"

	"verif/harness/internal/dart"
	"verif/harness/internal/model"
	"verif/harness/internal/report"
)

// noNumbers are texts that stand for no number, and noDates for no date.
var noNumbers = []string{"", "a", "-", "1a", "1 2", "0x1", "--1", ",", "1e", "一"}
var noInts = []string{"1.5", "1e3", ".5", "99999999999999999999999", "-99999999999999999999999"}
var noDates = []string{"", "a", "12", "2020-1-1", "2020/01/01", "yesterday"}

// dartVerify judges the checks of form texts that are generated for Dart.
func dartVerify(r *report.Run, bin string) {
	dl := time.Now().Add(4 * time.Minute)
	o := dartOpts
	o.EmptyEnum = false
	for n := 0; n < r.N(24, 300) && time.Now().Before(dl); n++ {
		b := newDart(r, bin)
		for i := 0; i < 60; i++ {
			rng := model.NewRng(r.Seed*47_000_003 + int64(n*1000+i))
			s := model.GenSchema(rng, o)
			model.AddDomainTags(rng, s, model.Domain{Verify: true, Lang: true})
			b.Add(s, nil)
		}
		b.Compile()
		b.Report()
		r.Count("schemas loaded (Dart)", int64(len(b.Good())))
		var ts []*dartTodo
		for _, c := range b.Good() {
			rng := model.NewRng(r.Seed*53_000_003 + int64(n*1000+c.N))
			for _, d := range c.S.Datas() {
				for _, bf := range d.BoundFields() {
					if !model.HasTag(bf.Tags, "verify") {
						continue
					}
					for k := 0; k < 10; k++ {
						v := rng.VerifyVal(bf, 1)
						text, ok := formText(bf.Type, v)
						if !ok {
							continue
						}
						ts = append(ts, c.verify(r, d, bf, text, bf.Verdict(v)))
					}
					// texts that stand for no value break the first format
					fs := bf.Decl.File.Formats(bf.Field)
					if len(fs) == 0 || bf.Type.Cont != model.None || bf.Type.Elem.Kind != model.KBase {
						continue
					}
					var bad []string
					switch bf.Type.Elem.Base {
					case model.String, model.Bool:
					case model.Date:
						bad = noDates
					case model.Float, model.Double, model.Decimal:
						bad = noNumbers
					default:
						bad = append(append(bad, noNumbers...), noInts...)
					}
					for _, t := range bad {
						f := &fs[0]
						if t == "" && bf.Type.IsNull() && f.Null {
							f = nil
						}
						ts = append(ts, c.verify(r, d, bf, t, f))
					}
				}
			}
		}
		dartPerform(r, ts)
		b.Drop()
	}
}

// formText is the text a form holds for a value, nil for none.
func formText(t model.Type, v any) (any, bool) {
	if v == nil {
		return nil, true
	}
	if t.Cont != model.None || t.Elem.Kind == model.KData {
		return "x", true
	}
	s, _ := v.(string)
	if t.Elem.Kind == model.KEnum {
		it := model.EnumItem(t.Elem.Enum, v)
		if it == nil {
			return nil, false
		}
		return model.Hump(it.Name), true
	}
	switch t.Elem.Base {
	case model.Bool:
		return fmt.Sprint(v), true
	case model.Date:
		n, _ := strconv.ParseInt(s, 10, 64)
		at := time.UnixMilli(n).UTC()
		if at.Year() < 0 || at.Year() > 9999 {
			return nil, false
		}
		return at.Format("2006-01-02T15:04:05.000Z"), true
	}
	return s, true
}

// verify judges one check of a text.
func (c *dartCase) verify(r *report.Run, d *model.Data, bf model.BoundField, text any, want *model.Format) *dartTodo {
	r.Case("dart"+d.Name+bf.Name+model.Show(text), want != nil)
	return &dartTodo{c: c, what: "data " + d.Name + " member " + bf.Name + " " + kindOf(bf.Type) + " text " + model.Show(text), f: func() (string, string) {
		lib := c.W.Libs[d.File.Base()+".verify.dart"]
		fn := "verify" + model.Hump(d.Name) + "_" + model.Hump(bf.Name)
		if lib == nil || lib.Tops[fn] == nil {
			return "verify-missing", "there is no check " + fn
		}
		ctx := &dart.Obj{N: "BuildContext", F: map[string]any{}}
		got, err := c.W.Func(lib, fn, []any{ctx, text})
		if err != nil {
			return "verify-throws", err.Error()
		}
		if want == nil {
			r.Count("texts that satisfy their formats (Dart)", 1)
			if got != nil {
				return "verify-rejects", fmt.Sprintf("refused with %v", got)
			}
			return "", ""
		}
		r.Count("texts that break a format (Dart)", 1)
		if got == nil {
			return "verify-accepts", "accepted, it breaks " + want.Item.Name
		}
		msg := ""
		if e := dartTry(func() {
			k := c.Enum(want.Code)
			if k == nil {
				panic(dartBad{"there is no class " + model.Hump(want.Code.Name)})
			}
			it := c.must(c.W.Static(k, model.AllUpper(want.Item.Name), nil))
			msg = fmt.Sprint(c.must(c.W.Call(it, "toText", []any{ctx}, nil)))
		}); e != "" {
			return "verify-error", e
		}
		if got != any(msg) {
			return "verify-error", fmt.Sprintf("refused with %v, the first broken format is %s (%s)", got, want.Item.Name, msg)
		}
		return "", ""
	}}
}
