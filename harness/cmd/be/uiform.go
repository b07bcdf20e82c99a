package main

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"time"

	"verif/harness/internal/cli"
	"verif/harness/internal/model"
	"verif/harness/internal/report"
	"verif/harness/internal/tsws"
)

func init() {
	checks["C32"] = c32
}

var uiOpts = func() model.Opts {
	o := dartOpts
	o.EmptyEnum = false
	return o
}()

// uiFields are the members of d that its form, or its table, shows.
func uiFields(d *model.Data, part string) (out []*model.Field) {
	if uiValue(d.Tags, part) != "true" {
		return nil
	}
	for _, f := range d.AllFields() {
		if uiValue(f.Tags, part) != "" {
			out = append(out, f)
		}
	}
	return
}

// fixed is a number with n digits after the point, halves away from zero.
func fixed(s string, n int) string {
	x, ok := new(big.Rat).SetString(s)
	if !ok {
		return "?"
	}
	k := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil))
	y := new(big.Rat).Mul(new(big.Rat).Abs(x), k)
	y.Add(y, big.NewRat(1, 2))
	t := new(big.Int).Quo(y.Num(), y.Denom()).String()
	for len(t) <= n {
		t = "0" + t
	}
	if n > 0 {
		t = t[:len(t)-n] + "." + t[len(t)-n:]
	}
	if x.Sign() < 0 {
		t = "-" + t
	}
	return t
}

func digits(f *model.Field) int {
	n, _ := strconv.Atoi(uiValue(f.Tags, "digit"))
	return n
}

func uiFormat(f *model.Field) string {
	if s := uiValue(f.Tags, "format"); s != "" {
		return s
	}
	return "yyyy/MM/dd HH:mm:ss"
}

// shown judges the text that a value is shown as, one that is not null.
func shown(f *model.Field, x model.Ref, v any, got string, enum func(*model.Enum, *model.Item) string, date func(ms, format string) string) string {
	s, _ := v.(string)
	want := s
	switch {
	case x.Kind == model.KEnum:
		it := model.EnumItem(x.Enum, v)
		if it == nil {
			return ""
		}
		want = enum(x.Enum, it)
	case x.Kind == model.KData:
		return ""
	case x.Base == model.Bool:
		want = fmt.Sprint(v)
	case x.Base == model.Date:
		want = date(s, uiFormat(f))
	case x.Base == model.Float || x.Base == model.Double:
		n, _ := strconv.ParseFloat(s, 64)
		if math.Abs(n) >= 1e21 { // the libraries give the shortest notation then
			if g, err := strconv.ParseFloat(got, 64); err == nil && g == n {
				return ""
			}
			return fmt.Sprintf("%s is shown as %q", s, got)
		}
		want = fixed(new(big.Rat).SetFloat64(n).String(), digits(f))
	case x.Base == model.Decimal:
		want = fixed(s, digits(f))
	}
	zero := func(s string) string {
		if strings.Trim(s, "-0.") == "" {
			return strings.TrimPrefix(s, "-")
		}
		return s
	}
	if got != want && !(x.Kind == model.KBase && (x.Base == model.Float || x.Base == model.Double || x.Base == model.Decimal) && zero(got) == zero(want)) {
		return fmt.Sprintf("%s is shown as %q, want %q", model.Show(v), got, want)
	}
	return ""
}

func c32() {
	r := report.New("C32", "a form or a table generated for a data type of a random valid schema set, drawn for a random value, texts and dates entered in every input; non-trivial: it has at least two inputs or columns")
	bin := cli.Build(r)
	dl := r.Budget(100*time.Second, 12*time.Minute)
	for n := 0; n < r.N(10, 150) && time.Now().Before(dl); n++ {
		tb, db := tsws.New(r, bin), newDart(r, bin)
		for i := 0; i < 50; i++ {
			rng := model.NewRng(r.Seed*61_000_003 + int64(n*1000+i))
			s := model.GenSchema(rng, uiOpts)
			model.AddDomainTags(rng, s, model.Domain{Lang: rng.P(0.5), UI: true, Verify: rng.P(0.4)})
			src := s.Sources(nil)
			tb.Add(s, src)
			db.Add(s, src)
		}
		done := make(chan bool)
		go func() { tb.Compile(); done <- true }()
		db.Compile()
		<-done
		tb.Report()
		db.Report()
		r.Count("schemas compiled (TypeScript)", int64(len(tb.Good())))
		rng := model.NewRng(r.Seed*67_000_003 + int64(n))
		var ts []*tsTodo
		for _, c := range tb.Good() {
			for _, d := range c.S.Datas() {
				for _, part := range []string{"form", "table"} {
					fs := uiFields(d, part)
					r.Case(fmt.Sprint(part, d.Name, len(fs), c.N, n), len(fs) > 1)
					if uiValue(d.Tags, part) != "true" {
						continue
					}
					for k := 0; k < 4; k++ {
						ts = append(ts, tsDraw(r, c, d, part, fs, rng))
					}
					ts = append(ts, tsPlace(r, c, d, part, fs, rng))
				}
			}
		}
		tsPerform(r, tb, ts)
		r.Count("schemas loaded (Dart)", int64(len(db.Good())))
		var ds []*dartTodo
		for _, c := range db.Good() {
			for _, d := range c.S.Datas() {
				if uiValue(d.Tags, "form") == "true" {
					for k := 0; k < 4; k++ {
						ds = append(ds, dartForm(r, c, d, rng.DataVal(d, 2), rng))
					}
				}
				if uiValue(d.Tags, "table") == "true" {
					for k := 0; k < 3; k++ {
						var rows []model.Obj
						for i := rng.Intn(4); i >= 0; i-- {
							rows = append(rows, rng.DataVal(d, 2))
						}
						ds = append(ds, dartTable(r, c, d, rows, model.NewRng(rng.Int63())))
					}
				}
			}
		}
		dartPerform(r, ds)
		tb.Drop()
		db.Drop()
	}
	r.Finish()
}

var uiComp = map[string]string{"form": "FormItems", "table": "TableColumn"}
var uiItem = map[string]string{"form": "el-form-item", "table": "el-table-column"}

// pickers are the kinds of date inputs for one date and for several.
var pickers = map[string][2]string{"datetime": {"datetime", "datetimerange"}, "date": {"date", "daterange"}, "month": {"month", "monthrange"}, "year": {"year", "years"}, "dates": {"dates", "dates"}}

// entry is what is entered in an input and the value that it stands for.
type entry struct {
	f    *model.Field
	raw  any
	want any
}

// entries gives texts or dates to enter in the input of f.
func entries(rng *model.Rng, f *model.Field) (out []entry) {
	form := uiValue(f.Tags, "form")
	add := func(raw, want any) { out = append(out, entry{f, raw, want}) }
	t := f.Type
	if p, ok := pickers[form]; ok && t.Cont != model.Map {
		_ = p
		ms := func() int64 { return rng.Int63n(4e12) - 1e12 }
		d := func(n int64) any { return map[string]any{"date": n} }
		s := func(n int64) string { return fmt.Sprint(n) }
		if t.Cont == model.None {
			a := ms()
			if form == "dates" {
				add([]any{d(a)}, s(a))
			} else {
				add(d(a), s(a))
			}
			if t.IsNull() {
				add(nil, nil)
			}
			return
		}
		for range 3 {
			a, b := ms(), ms()
			e := b
			switch at := time.UnixMilli(b); form {
			case "month":
				e = time.Date(at.Year(), at.Month()+1, 0, 23, 59, 59, 999e6, time.Local).UnixMilli()
			case "date":
				e = time.Date(at.Year(), at.Month(), at.Day(), 23, 59, 59, 999e6, time.Local).UnixMilli()
			}
			add([]any{d(a), d(b)}, model.List{s(a), s(e)})
		}
		if t.ContNull {
			add(nil, nil)
		}
		return
	}
	if t.Cont != model.None || t.Elem.Kind != model.KBase {
		return
	}
	if form == "switch" {
		add(true, true)
		add(false, false)
		return
	}
	for i := 0; i < 3; i++ {
		v := rng.TypeVal(t, 1)
		if v == nil {
			continue
		}
		switch s, _ := v.(string); {
		case t.Elem.Base == model.Bool:
			add(fmt.Sprint(v), v)
		case t.Elem.Base == model.Date:
		case t.Elem.Base == model.String:
			if s != "" || !t.IsNull() {
				add(s, s)
			}
		default:
			add(s, s)
		}
	}
	if t.IsNull() {
		add("", nil)
	}
	return
}

func node(x any) (typ string, props map[string]any, children []any) {
	m := asMap(x)
	typ, _ = m["type"].(string)
	props = asMap(m["props"])
	children, _ = m["children"].([]any)
	return
}

// flat lists nodes, lists of nodes taken apart.
func flat(l []any) (out []any) {
	for _, x := range l {
		if y, ok := x.([]any); ok {
			out = append(out, flat(y)...)
		} else if x != nil {
			out = append(out, x)
		}
	}
	return
}

func tsEnumKey(e *model.Enum, it *model.Item) string {
	return "T(" + model.Lower(e.Name) + "Lang." + model.Hump(it.Name) + ")"
}

func tsDate(ms, format string) string { return "FD(" + ms + "," + format + ")" }

// tsDraw draws a form or a table for a random value.
func tsDraw(r *report.Run, c *tsws.Case, d *model.Data, part string, fs []*model.Field, rng *model.Rng) *tsTodo {
	v, row := rng.DataVal(d, 2), rng.DataVal(d, 2)
	var es []entry
	enter := []any{}
	if part == "form" {
		for _, f := range fs {
			for _, e := range entries(rng, f) {
				es = append(es, e)
				enter = append(enter, []any{model.Lower(f.Name), e.raw})
			}
		}
	}
	op := tsws.Op{"op": "render", "mod": c.Mod(d.File, "ui"), "comp": model.Hump(d.Name) + uiComp[part], "t": c.Data(d), "v": v, "enter": enter}
	if part == "table" {
		op["row"] = row
	}
	return &tsTodo{c: c, what: "the " + part + " of " + d.Name, op: op, f: func(res map[string]any) (string, string) {
		if res["missing"] != nil {
			return "ts-missing", "there is no component"
		}
		items, _ := res["items"].([]any)
		by := map[string]any{}
		at := map[string]int{}
		for i, x := range items {
			_, p, _ := node(x)
			k, _ := p["prop"].(string)
			if _, ok := by[k]; ok {
				return "ts-twice", k + " is there twice"
			}
			by[k], at[k] = x, i
		}
		if len(by) != len(fs) {
			return "ts-items", fmt.Sprintf("it shows %v, marked are %d members", sortedKeys(by), len(fs))
		}
		for _, f := range fs {
			k := model.Lower(f.Name)
			typ, p, ch := node(by[k])
			if by[k] == nil || typ != uiItem[part] {
				return "ts-items", fmt.Sprintf("%s is shown by %s, want %s", k, typ, uiItem[part])
			}
			if want := "T(" + model.Lower(d.Name) + "Lang." + k + ")"; p["label"] != want {
				return "ts-label", fmt.Sprintf("%s has the label %v, want %s", k, p["label"], want)
			}
			if part == "form" {
				if _, ok := p["rules"]; ok != model.HasTag(f.Tags, "verify") {
					return "ts-rules", fmt.Sprintf("%s has rules: %v, it has formats: %v", k, ok, !ok)
				}
				ch = flat(ch)
				if len(ch) != 1 {
					return "ts-input", fmt.Sprintf("%s has %d inputs", k, len(ch))
				}
				if key, e := tsInput(f, v[f.Name], ch[0]); key != "" {
					return "ts-" + key, k + " (" + kindOf(f.Type) + " as " + uiValue(f.Tags, "form") + "): " + e
				}
				r.Count("inputs read (TypeScript)", 1)
				continue
			}
			cells, _ := res["cells"].([]any)
			if len(cells) != len(items) {
				return "ts-cells", "there are not as many cells as columns"
			}
			if key, e := tsCell(f, row[f.Name], cells[at[k]]); key != "" {
				return "ts-" + key, k + " (" + kindOf(f.Type) + " as " + uiValue(f.Tags, "table") + "): " + e
			}
			r.Count("cells read (TypeScript)", 1)
		}
		// drawing fills in switches and changes nothing else
		drawn := asMap(res["drawn"])
		for _, f := range d.AllFields() {
			if part == "form" && uiValue(d.Tags, part) == "true" && uiValue(f.Tags, part) == "switch" {
				continue
			}
			if e := model.EqualVal(f.Type, v[f.Name], drawn[f.Name], tsCmp, f.Name); e != "" {
				return "ts-drawing", "drawing changes the value: " + e
			}
		}
		got, _ := res["entered"].([]any)
		if len(got) != len(es) {
			return "misfit", "wrong number of entries"
		}
		for i, e := range es {
			m := asMap(got[i])
			at := fmt.Sprintf("%s (%s as %s), entered %s", e.f.Name, kindOf(e.f.Type), uiValue(e.f.Tags, "form"), model.Show(e.raw))
			r.Count("entries (TypeScript)", 1)
			switch {
			case m["none"] != nil:
				return "ts-enter", at + ": the input stores nothing"
			case m["threw"] != nil:
				return "ts-enter", at + ": " + fmt.Sprint(m["threw"])
			}
			if o, _ := m["others"].([]any); len(o) > 0 {
				return "ts-enter-other", fmt.Sprintf("%s: %v changed", at, o)
			}
			if x := model.EqualVal(e.f.Type, e.want, m["v"], tsCmp, e.f.Name); x != "" {
				return "ts-enter", at + ": " + x
			}
		}
		return "", ""
	}}
}

// tsInput judges one input of a form.
func tsInput(f *model.Field, v any, x any) (string, string) {
	typ, p, ch := node(x)
	form := uiValue(f.Tags, "form")
	has := func(k string) bool { _, ok := p[k]; return ok && p[k] != false }
	if has("disabled") != (uiValue(f.Tags, "onlyRead") == "true") {
		return "read-only", fmt.Sprintf("disabled is %v", p["disabled"])
	}
	holds := func(k string) (string, string) {
		h, ok := asMap(p[k])["v"]
		if !ok {
			return "input", fmt.Sprintf("the input has no %s", k)
		}
		if form == "switch" && v == nil {
			v = false
		}
		if e := model.EqualVal(f.Type, v, h, tsCmp, f.Name); e != "" {
			return "holds", "the input does not hold the value: " + e
		}
		return "", ""
	}
	is := func(want string) (string, string) {
		if typ != want {
			return "input", fmt.Sprintf("the input is %s, want %s", typ, want)
		}
		return "", ""
	}
	null := f.Type.IsNull()
	if f.Type.Cont != model.None {
		null = f.Type.ContNull
	}
	if form != "switch" && form != "radio" && form != "radioButton" && has("clearable") != null {
		return "clearable", fmt.Sprintf("clearable is %v", p["clearable"])
	}
	if k, ok := pickers[form]; ok {
		if key, e := is("el-date-picker"); key != "" {
			return key, e
		}
		want := k[0]
		if f.Type.Cont == model.Array {
			want = k[1]
		}
		if p["type"] != want {
			return "picker", fmt.Sprintf("the picker is for %v, want %s", p["type"], want)
		}
		if has("unlink-panels") != (uiValue(f.Tags, "unlink") == "true") {
			return "picker", "unlink-panels is wrong"
		}
		return holds("modelValue")
	}
	switch form {
	case "switch":
		if key, e := is("el-switch"); key != "" {
			return key, e
		}
		return holds("modelValue")
	case "menu", "radio", "radioButton":
		box, option := "el-radio-group", "el-radio"
		if form == "menu" {
			box, option = "el-select", "el-option"
		} else if form == "radioButton" {
			option = "el-radio-button"
		}
		if key, e := is(box); key != "" {
			return key, e
		}
		if f.Type.Cont == model.None {
			var got, want []string
			for _, o := range flat(ch) {
				t, q, _ := node(o)
				got = append(got, fmt.Sprint(t, " ", asMap(q["value"])["enum"], " ", q["label"]))
			}
			for _, it := range f.Type.Elem.Enum.Items {
				want = append(want, fmt.Sprint(option, " ", it.Value, " ", tsEnumKey(f.Type.Elem.Enum, it)))
			}
			if strings.Join(got, ", ") != strings.Join(want, ", ") {
				return "options", fmt.Sprintf("it offers %v, want %v", got, want)
			}
		}
		return holds("v-model")
	case "pass":
		if p["type"] != "password" {
			return "password", fmt.Sprintf("the input is a %v", p["type"])
		}
	default:
		if f.Type.Cont == model.Array {
			if key, e := is("el-select"); key != "" {
				return key, e
			}
			return holds("v-model")
		}
	}
	if key, e := is("el-input"); key != "" {
		return key, e
	}
	if f.Type.Cont != model.None {
		return "", ""
	}
	if v == nil {
		if g := p["modelValue"]; g != "" && g != nil && asMap(g)["v"] != nil {
			return "holds", fmt.Sprintf("null is shown as %v", g)
		}
		return "", ""
	}
	s, ok := p["modelValue"].(string)
	if f.Type.Elem.Kind == model.KBase && !ok {
		return "holds", fmt.Sprintf("%s is shown as %v", model.Show(v), p["modelValue"])
	}
	if e := shown(f, f.Type.Elem, v, s, tsEnumKey, tsDate); e != "" {
		return "holds", e
	}
	return "", ""
}

// tsCell judges one cell of a table.
func tsCell(f *model.Field, v any, x any) (string, string) {
	if e := asMap(x)["threw"]; e != nil {
		return "cell", fmt.Sprintf("the cell of %s throws %v", model.Show(v), e)
	}
	typ, p, ch := node(x)
	switch uiValue(f.Tags, "table") {
	case "switch":
		h, ok := asMap(p["v-model"])["v"]
		if typ != "el-switch" || !ok || p["disabled"] == nil {
			return "cell", "the cell is no fixed switch"
		}
		if e := model.EqualVal(f.Type, v, h, tsCmp, f.Name); e != "" {
			return "cell", e
		}
		return "", ""
	case "image":
		s, _ := v.(string)
		n := 0
		var walk func(x any) bool
		walk = func(x any) bool {
			switch y := x.(type) {
			case []any:
				for _, e := range y {
					if !walk(e) {
						return false
					}
				}
			case map[string]any:
				if q := asMap(y["props"]); q != nil {
					if src, ok := q["src"]; ok {
						n++
						if f.Type.Cont == model.None && v != nil && src != s {
							return false
						}
					}
				}
				for _, e := range y {
					if !walk(e) {
						return false
					}
				}
			}
			return true
		}
		if !walk(ch) || n == 0 {
			return "cell", fmt.Sprintf("the picture of %s is not there", model.Show(v))
		}
		return "", ""
	}
	if f.Type.Cont != model.None {
		return "", ""
	}
	if v == nil {
		if x != "" && x != nil {
			return "cell", fmt.Sprintf("null is shown as %v", x)
		}
		return "", ""
	}
	s, ok := x.(string)
	if f.Type.Elem.Kind == model.KBase && !ok {
		return "cell", fmt.Sprintf("%s is shown as %v", model.Show(v), x)
	}
	if e := shown(f, f.Type.Elem, v, s, tsEnumKey, tsDate); e != "" {
		return "cell", e
	}
	return "", ""
}

// tsPlace draws with a wanted order, hidden items and slots.
func tsPlace(r *report.Run, c *tsws.Case, d *model.Data, part string, fs []*model.Field, rng *model.Rng) *tsTodo {
	all := []string{"zz"}
	own := map[string]bool{}
	for _, f := range fs {
		all = append(all, model.Lower(f.Name))
		own[model.Lower(f.Name)] = true
	}
	some := func(p float64) []string {
		out := []string{}
		for range all {
			if rng.P(p) {
				out = append(out, model.Pick(rng, all))
			}
		}
		return out
	}
	slots := []string{}
	if rng.P(0.6) {
		slots = append(slots, "extra")
	}
	if len(fs) > 0 && rng.P(0.4) {
		slots = append(slots, model.Lower(fs[rng.Intn(len(fs))].Name))
	}
	pos, hide := append(some(0.4), slots[:rng.Intn(len(slots)+1)]...), some(0.3)
	op := tsws.Op{"op": "render", "mod": c.Mod(d.File, "ui"), "comp": model.Hump(d.Name) + uiComp[part], "t": c.Data(d), "v": rng.DataVal(d, 1), "slots": slots, "position": pos, "hide": hide}
	return &tsTodo{c: c, what: "the arranged " + part + " of " + d.Name, op: op, f: func(res map[string]any) (string, string) {
		r.Count("arrangements (TypeScript)", 1)
		items, _ := res["items"].([]any)
		var got []string
		slot := map[string]bool{}
		for _, x := range items {
			t, p, _ := node(x)
			k, _ := p["prop"].(string)
			if t == "slot" {
				k, _ = p["key"].(string)
				slot[k] = true
			}
			got = append(got, k)
		}
		is := map[string]bool{}
		for _, s := range slots {
			is[s] = true
		}
		for _, k := range got {
			if slot[k] != is[k] {
				return "ts-slot", fmt.Sprintf("%s comes from a slot: %v, there is a slot for it: %v", k, slot[k], is[k])
			}
		}
		there := func(k string) bool { return own[k] || is[k] }
		var want []string
		used := map[string]bool{}
		for _, k := range pos {
			if there(k) && !used[k] {
				used[k] = true
				want = append(want, k)
			}
		}
		hidden := map[string]bool{}
		for _, k := range hide {
			hidden[k] = true
		}
		rest := map[string]bool{}
		for k := range own {
			if !used[k] && !hidden[k] {
				rest[k] = true
			}
		}
		for k := range is {
			if !used[k] && !hidden[k] {
				rest[k] = true
			}
		}
		if len(got) < len(want) || strings.Join(got[:len(want)], " ") != strings.Join(want, " ") {
			return "ts-position", fmt.Sprintf("it shows %v, first wanted are %v", got, want)
		}
		for _, k := range got[len(want):] {
			if !rest[k] {
				return "ts-hide", fmt.Sprintf("it shows %v, %s does not belong", got, k)
			}
			delete(rest, k)
		}
		if len(rest) > 0 {
			return "ts-hide", fmt.Sprintf("it shows %v, without %v", got, sortedKeys(rest))
		}
		return "", ""
	}}
}
