package main

import (
	"fmt"
	"strconv"
	"strings"

	"verif/harness/internal/dart"
	"verif/harness/internal/model"
	"verif/harness/internal/report"
)

// dartWidgets stands in for the libraries of widgets: what is built is kept with its arguments.
func dartWidgets(name string, this *dart.Obj, args []any, named map[string]any, ta []*dart.Type) (any, bool) {
	switch {
	case name == "Localizations.of":
		return nil, true
	case name == ".format":
		if len(args) == 2 {
			if t, ok := args[0].(dart.DateTime); ok {
				return fmt.Sprintf("FD(%d,%v)", t.Us/1000, args[1]), true
			}
		}
		return nil, false
	case name == ".build" && this != nil:
		return &dart.Obj{N: "Widget", F: map[string]any{"of": this}}, true
	case strings.HasPrefix(name, "."):
		return nil, false
	case name == "Image.network":
		return &dart.Obj{N: "Image", F: map[string]any{"url": args[0]}}, true
	}
	o := &dart.Obj{N: name, F: map[string]any{}}
	for k, v := range named {
		o.F[k] = v
	}
	for i, v := range args {
		o.F["#"+strconv.Itoa(i)] = v
	}
	switch name {
	case "TablesBuild":
		o.F["columns"] = &dart.Map{}
	case "ImageFormImage":
		o.F["url"] = args[0]
	}
	return o, true
}

func dartDate(ms, format string) string { return "FD(" + ms + "," + format + ")" }

func (c *dartCase) enumText(e *model.Enum, it *model.Item) string {
	v := c.must(c.W.Static(c.Enum(e), model.AllUpper(it.Name), nil))
	s, _ := c.must(c.W.Call(v, "toText", []any{&dart.Obj{N: "BuildContext", F: map[string]any{}}}, nil)).(string)
	return s
}

// textOf judges the text of a member that is no map and holds no data.
func (c *dartCase) textOf(f *model.Field, v any, got any) string {
	s, ok := got.(string)
	if !ok {
		return fmt.Sprintf("%s is shown as %s", model.Show(v), dart.Show(got))
	}
	one := func(v any, s string) string {
		if v == nil {
			if s != "" {
				return fmt.Sprintf("null is shown as %q", s)
			}
			return ""
		}
		return shown(f, f.Type.Elem, v, s, c.enumText, dartDate)
	}
	if f.Type.Cont == model.None {
		return one(v, s)
	}
	l, _ := v.(model.List)
	if len(l) == 0 {
		return one(nil, s)
	}
	if b := f.Type.Elem.Base; f.Type.Elem.Kind == model.KBase && (b == model.String || b == model.Date) {
		return "" // its texts may hold the comma
	}
	p := strings.Split(s, ",")
	if len(p) != len(l) {
		return fmt.Sprintf("%s is shown as %q", model.Show(v), s)
	}
	for i, x := range l {
		if e := one(x, p[i]); e != "" {
			return e
		}
	}
	return ""
}

func plainText(t model.Type) bool { return t.Cont != model.Map && t.Elem.Kind != model.KData }

// dartForm draws the form of d for a value and enters values.
func dartForm(r *report.Run, c *dartCase, d *model.Data, v model.Obj, rng *model.Rng) *dartTodo {
	var fs []*model.Field
	for _, f := range uiFields(d, "form") {
		if dartForms[uiValue(f.Tags, "form")] {
			fs = append(fs, f)
		}
	}
	ro := rng.P(0.3)
	vals := map[*model.Field][]any{}
	for _, f := range fs {
		for i := 0; i < 3; i++ {
			vals[f] = append(vals[f], rng.TypeVal(f.Type, 1))
		}
	}
	return &dartTodo{c: c, what: "the form of " + d.Name, f: func() (key, detail string) {
		k := c.W.Class(d.File.Base()+".ui.dart", "Form"+model.Hump(d.Name)+"Build")
		if k == nil {
			return "form", "there is no class Form" + model.Hump(d.Name) + "Build"
		}
		c.W.Host = dartWidgets
		defer func() { c.W.Host = nil }()
		if bad := dartTry(func() {
			ctx := &dart.Obj{N: "BuildContext", F: map[string]any{}}
			info := c.obj(d, v)
			form := c.must(c.W.New(k, "", []any{info}, map[string]any{"readOnly": ro}))
			list, ok := c.must(c.W.Call(form, "build", []any{ctx}, nil)).(*dart.List)
			if !ok {
				key, detail = "form", "build gives no list"
				return
			}
			shows := map[any]int{}
			for _, x := range list.V {
				if o, ok := x.(*dart.Obj); ok {
					shows[o.F["of"]]++
				}
			}
			if len(list.V) != len(fs) {
				key, detail = "form-inputs", fmt.Sprintf("it shows %d inputs, marked are %d members", len(list.V), len(fs))
				return
			}
			var loc any
			if len(fs) > 0 {
				l := c.W.Class(d.File.Base()+".ui.dart", model.Hump(d.Name)+"Localizations")
				if l == nil {
					key, detail = "form-labels", "there are no labels"
					return
				}
				loc = c.must(c.W.Static(l, "of", []any{ctx}))
			}
			if e := model.EqualObj(d, v, c.read(d, info), tsCmp, d.Name); e != "" {
				key, detail = "form-drawing", "drawing changes the value: "+e
				return
			}
			for _, f := range fs {
				n := model.Lower(f.Name)
				at := n + " (" + kindOf(f.Type) + " as " + uiValue(f.Tags, "form") + "): "
				in, ok := c.must(c.W.Get(form, n)).(*dart.Obj)
				if !ok || shows[in] != 1 {
					key, detail = "form-inputs", at+"its input is not shown once"
					return
				}
				r.Count("inputs read (Dart)", 1)
				dec, _ := in.F["decoration"].(*dart.Obj)
				if dec == nil || dec.F["labelText"] != any(c.text(loc, n)) {
					key, detail = "form-label", at+"its label is not its text"
					return
				}
				if in.F["readOnly"] != (ro || uiValue(f.Tags, "onlyRead") == "true") {
					key, detail = "form-read-only", fmt.Sprint(at, "readOnly is ", in.F["readOnly"])
					return
				}
				if _, ok := in.F["validator"].(*dart.Closure); ok != model.HasTag(f.Tags, "verify") {
					key, detail = "form-check", fmt.Sprint(at, "it has a check: ", ok)
					return
				}
				if e := c.input(r, d, f, v[f.Name], in); e != "" {
					key, detail = "form-holds", at+e
					return
				}
				if e := c.enter(r, d, f, info, in, vals[f]); e != "" {
					key, detail = "form-enter", at+e
					return
				}
			}
		}); bad != "" {
			return "form-run", bad
		}
		return
	}}
}

// input judges what an input holds.
func (c *dartCase) input(r *report.Run, d *model.Data, f *model.Field, v any, in *dart.Obj) string {
	form := uiValue(f.Tags, "form")
	num := func(k string, def string) string {
		want := uiValue(f.Tags, k)
		if want == "" {
			want = def
		}
		return want
	}
	is := func(want string) string {
		if in.N != want {
			return fmt.Sprintf("the input is a %s, want %s", in.N, want)
		}
		return ""
	}
	same := func(k string) string {
		return model.EqualVal(f.Type, v, c.unval(f.Type, in.F[k]), tsCmp, k)
	}
	switch form {
	case "text", "file":
		want := "TextFormBuild"
		if form == "file" {
			want = "FileFormBuild"
		} else if m := num("maxLine", "1"); fmt.Sprint(in.F["maxLines"]) != m {
			return fmt.Sprintf("maxLines is %v, want %s", in.F["maxLines"], m)
		}
		if e := is(want); e != "" {
			return e
		}
		if plainText(f.Type) {
			return c.textOf(f, v, in.F["initialValue"])
		}
	case "click":
		if e := is("ClickFormBuild"); e != "" {
			return e
		}
		return same("initialValue")
	case "switch":
		if e := is("SwitchFormBuild"); e != "" {
			return e
		}
		return same("initialValue")
	case "menu":
		if e := is("MenuFormBuild"); e != "" {
			return e
		}
		if f.Type.Cont == model.None {
			l, ok := in.F["items"].(*dart.List)
			if !ok || len(l.V) != len(f.Type.Elem.Enum.Items) {
				return "it does not offer every value"
			}
			for i, it := range f.Type.Elem.Enum.Items {
				o, _ := l.V[i].(*dart.Obj)
				if o == nil || o.F["value"] != c.must(c.W.Static(c.Enum(f.Type.Elem.Enum), model.AllUpper(it.Name), nil)) {
					return "it does not offer " + it.Name
				}
				t, _ := o.F["child"].(*dart.Obj)
				if t == nil || t.F["#0"] != any(c.enumText(f.Type.Elem.Enum, it)) {
					return "the text of " + it.Name + " is not shown"
				}
			}
		}
		return same("value")
	case "date":
		if e := is("DatetimeFormBuild"); e != "" {
			return e
		}
		if f.Type.Cont == model.None {
			return c.textOf(f, v, in.F["initialValue"])
		}
	case "image":
		if e := is("ImageFormBuild"); e != "" {
			return e
		}
		for _, x := range [][3]string{{"maxCount", "maxCount", "1"}, {"clip", "clip", "false"}, {"outWidth", "width", "300"}, {"outHeight", "height", "300"}} {
			if fmt.Sprint(in.F[x[0]]) != num(x[1], x[2]) {
				return fmt.Sprintf("%s is %v, want %s", x[0], in.F[x[0]], num(x[1], x[2]))
			}
		}
		l, ok := in.F["initialValue"].(*dart.List)
		if !ok {
			return "it holds no list"
		}
		var want []any
		switch x := v.(type) {
		case string:
			if !f.Type.Elem.Null || strings.HasPrefix(x, "http") {
				want = []any{x}
			}
		case model.List:
			want = x
		}
		if len(want) != len(l.V) {
			return fmt.Sprintf("%s is shown by %d pictures", model.Show(v), len(l.V))
		}
		for i, x := range l.V {
			o, _ := x.(*dart.Obj)
			if o == nil || o.F["url"] != want[i] {
				return fmt.Sprintf("%s is shown as %s", model.Show(want[i]), dart.Show(x))
			}
		}
	}
	if form == "image" || form == "file" {
		if e := uiValue(f.Tags, "extensions"); e != "" {
			l, ok := in.F["extensions"].(*dart.List)
			if !ok || len(l.V) != 1 || l.V[0] != any(e) {
				return "the extensions are not those of the tag"
			}
		}
	}
	return ""
}

// enter gives values to an input and judges what the form's object holds then.
func (c *dartCase) enter(r *report.Run, d *model.Data, f *model.Field, info any, in *dart.Obj, vals []any) string {
	form := uiValue(f.Tags, "form")
	saved := in.F["onSaved"]
	if uiValue(f.Tags, "onlyRead") == "true" {
		if saved != nil {
			return "an input only to be read stores something"
		}
		return ""
	}
	store := func(raw any, want any) string {
		before := c.read(d, info)
		if _, err := c.W.Call(saved, "", []any{raw}, nil); err != nil {
			return fmt.Sprintf("entered %s: %v", dart.Show(raw), err)
		}
		r.Count("entries (Dart)", 1)
		before[f.Name] = want
		if e := model.EqualObj(d, before, c.read(d, info), tsCmp, d.Name); e != "" {
			return fmt.Sprintf("entered %s: %s", dart.Show(raw), e)
		}
		return ""
	}
	has := func() string {
		if _, ok := saved.(*dart.Closure); !ok {
			return "it stores nothing"
		}
		return ""
	}
	null := f.Type.IsNull()
	switch form {
	case "text", "file":
		if !plainText(f.Type) {
			return ""
		}
		if e := has(); e != "" {
			return e
		}
		for _, v := range vals {
			if f.Type.Cont == model.Array {
				l, ok := v.(model.List)
				if !ok || len(l) < 2 {
					continue
				}
				var p []string
				for _, x := range l {
					t, ok := c.entered(f, x)
					if !ok || strings.Contains(t, ",") || t == "" && (x != nil || !f.Type.Elem.Null) {
						p = nil
						break
					}
					p = append(p, t)
				}
				if p != nil {
					if e := store(strings.Join(p, ","), v); e != "" {
						return e
					}
				}
				continue
			}
			if v == nil {
				continue
			}
			t, ok := c.entered(f, v)
			if !ok || t == "" && null {
				continue
			}
			if e := store(t, v); e != "" {
				return e
			}
		}
		if null {
			for _, x := range []any{nil, ""} {
				if e := store(x, nil); e != "" {
					return e
				}
			}
		}
	case "click", "menu", "switch":
		if e := has(); e != "" {
			return e
		}
		for _, v := range vals {
			if e := store(c.val(f.Type, v), v); e != "" {
				return e
			}
		}
	case "date":
		if f.Type.Cont != model.None {
			return ""
		}
		if e := has(); e != "" {
			return e
		}
		for _, v := range vals {
			if e := store(c.val(f.Type, v), v); e != "" {
				return e
			}
		}
	case "image":
		if e := has(); e != "" {
			return e
		}
		for _, v := range vals {
			l := &dart.List{V: []any{}}
			switch x := v.(type) {
			case string:
				l.V = append(l.V, &dart.Obj{N: "ImageFormImage", F: map[string]any{"url": x}})
			case model.List:
				for _, y := range x {
					l.V = append(l.V, &dart.Obj{N: "ImageFormImage", F: map[string]any{"url": y}})
				}
			default:
				if f.Type.Cont != model.None {
					continue
				}
			}
			if e := store(l, v); e != "" {
				return e
			}
		}
	}
	return ""
}

// entered is the text to enter for a value.
func (c *dartCase) entered(f *model.Field, v any) (string, bool) {
	if v == nil {
		return "", true
	}
	t, ok := formText(model.Type{Elem: f.Type.Elem}, v)
	s, _ := t.(string)
	return s, ok
}

// dartTable draws the table of d for some rows.
func dartTable(r *report.Run, c *dartCase, d *model.Data, rows []model.Obj, rng *model.Rng) *dartTodo {
	fs := uiFields(d, "table")
	pick := rng.Perm(len(rows))[:rng.Intn(len(rows)+1)]
	choose := rng.P(0.7)
	return &dartTodo{c: c, what: "the table of " + d.Name, f: func() (key, detail string) {
		k := c.W.Class(d.File.Base()+".ui.dart", "Table"+model.Hump(d.Name)+"Build")
		if k == nil {
			return "table", "there is no class Table" + model.Hump(d.Name) + "Build"
		}
		c.W.Host = dartWidgets
		defer func() { c.W.Host = nil }()
		fail := func(k, f string, a ...any) { key, detail = "table-"+k, fmt.Sprintf(f, a...) }
		if bad := dartTry(func() {
			ctx := &dart.Obj{N: "BuildContext", F: map[string]any{}}
			list, sel := &dart.List{V: []any{}}, &dart.Set{V: []any{}}
			for _, v := range rows {
				x := c.obj(d, v)
				for j := 0; j < len(list.V); j++ {
					if same, err := c.W.Equal(list.V[j], x); err != nil {
						panic(dartBad{err.Error()})
					} else if same {
						return // equal rows are chosen together
					}
				}
				list.V = append(list.V, x)
			}
			for _, i := range pick {
				if _, err := c.W.Call(sel, "add", []any{list.V[i]}, nil); err != nil {
					panic(dartBad{err.Error()})
				}
			}
			told := 0
			named := map[string]any{"select": sel}
			if choose {
				named["onSelect"] = dartNative(func(args []any) any {
					if len(args) == 2 && args[1] == any(sel) {
						told++
					}
					return nil
				})
			}
			table := c.must(c.W.New(k, "", []any{list}, named))
			c.must(c.W.Call(table, "build", []any{ctx}, nil))
			tables := c.must(c.W.Get(table, "tables")).(*dart.Obj)
			if tables.F["rowCount"] != any(int64(len(rows))) {
				fail("rows", "rowCount is %v for %d rows", tables.F["rowCount"], len(rows))
				return
			}
			for i := range rows {
				o, _ := c.must(c.W.Call(tables.F["rowBuilder"], "", []any{ctx, int64(i)}, nil)).(*dart.Obj)
				if o == nil || o.F["data"] != list.V[i] {
					fail("rows", "row %d is not the value of that place", i)
					return
				}
			}
			cols := map[string]*dart.Obj{}
			m := tables.F["columns"].(*dart.Map)
			for i, k := range m.K {
				cols[fmt.Sprint(k)], _ = m.V[i].(*dart.Obj)
			}
			var loc any
			if len(fs) > 0 {
				l := c.W.Class(d.File.Base()+".ui.dart", model.Hump(d.Name)+"Localizations")
				if l == nil {
					fail("labels", "there are no labels")
					return
				}
				loc = c.must(c.W.Static(l, "of", []any{ctx}))
			}
			child := func(col *dart.Obj, builder string, args ...any) *dart.Obj {
				cell, _ := c.must(c.W.Call(col.F[builder], "", append([]any{ctx}, args...), nil)).(*dart.Obj)
				if cell == nil || cell.N != "TablesCell" {
					panic(dartBad{builder + " gives no cell"})
				}
				x, _ := cell.F["child"].(*dart.Obj)
				if x == nil {
					panic(dartBad{builder + " gives an empty cell"})
				}
				return x
			}
			last := int64(-1 << 40)
			for _, f := range fs {
				n := model.Lower(f.Name)
				at := n + " (" + kindOf(f.Type) + " as " + uiValue(f.Tags, "table") + "): "
				col := cols[n]
				if col == nil {
					fail("columns", "%sthere is no column for it", at)
					return
				}
				delete(cols, n)
				if x := uiValue(f.Tags, "index"); x != "" {
					if fmt.Sprint(col.F["index"]) != x {
						fail("index", "%sits index is %v, declared is %s", at, col.F["index"], x)
						return
					}
				} else if i, ok := col.F["index"].(int64); !ok || i <= last {
					fail("index", "%sits index is %v, after %d", at, col.F["index"], last)
					return
				} else {
					last = i
				}
				if t := child(col, "headerBuilder"); t.N != "Text" || t.F["#0"] != any(c.text(loc, n)) {
					fail("label", "%sits header is not its text", at)
					return
				}
				for i, v := range rows {
					r.Count("cells read (Dart)", 1)
					x := child(col, "cellBuilder", int64(0), int64(i), list.V[i])
					if uiValue(f.Tags, "table") == "image" {
						s, _ := v[f.Name].(string)
						if l, ok := v[f.Name].(model.List); ok && len(l) > 0 {
							s, _ = l[0].(string)
						}
						if strings.HasPrefix(s, "http") {
							if x.N != "Image" || x.F["url"] != any(s) {
								fail("cell", "%s%q is no picture", at, s)
								return
							}
						} else if x.N == "Image" {
							fail("cell", "%s%q is a picture", at, s)
							return
						}
						continue
					}
					t, _ := x.F["child"].(*dart.Obj)
					if x.N != "Tooltip" || t == nil || t.N != "Text" || t.F["#0"] != x.F["message"] {
						fail("cell", "%sthe cell shows no text, or another one than its tip", at)
						return
					}
					if plainText(f.Type) {
						if e := c.textOf(f, v[f.Name], t.F["#0"]); e != "" {
							fail("cell", "%s%s", at, e)
							return
						}
					}
				}
			}
			box := cols["select_checkbox"]
			delete(cols, "select_checkbox")
			if len(cols) > 0 {
				fail("columns", "there are columns for nothing: %v", sortedKeys(cols))
				return
			}
			if (box != nil) != choose {
				fail("select", "there is a column to choose: %v", box != nil)
				return
			}
			if !choose {
				return
			}
			in := map[int]bool{}
			for _, i := range pick {
				in[i] = true
			}
			check := func() bool {
				var all any = true
				if len(in) == 0 && len(rows) > 0 {
					all = false
				} else if len(in) < len(rows) {
					all = nil
				}
				if h := child(box, "headerBuilder"); h.F["value"] != all {
					fail("select", "%d of %d are chosen, the header has %v", len(in), len(rows), h.F["value"])
					return false
				}
				for i := range rows {
					if x := child(box, "cellBuilder", int64(0), int64(i), list.V[i]); x.F["value"] != any(in[i]) {
						fail("select", "row %d is chosen: %v, its box has %v", i, in[i], x.F["value"])
						return false
					}
				}
				return true
			}
			if !check() {
				return
			}
			for n, i := range rng.Perm(len(rows)) {
				r.Count("choices (Dart)", 1)
				c.must(c.W.Call(child(box, "cellBuilder", int64(0), int64(i), list.V[i]).F["onChanged"], "", []any{!in[i]}, nil))
				if in[i] {
					delete(in, i)
				} else {
					in[i] = true
				}
				if told != n+1 {
					fail("select", "choosing a row does not tell")
					return
				}
				if !check() {
					return
				}
			}
			h := child(box, "headerBuilder").F["onChanged"]
			c.must(c.W.Call(h, "", []any{true}, nil))
			for i := range rows {
				in[i] = true
			}
			if !check() {
				return
			}
			c.must(c.W.Call(h, "", []any{nil}, nil))
			in = map[int]bool{}
			check()
		}); bad != "" {
			return "table-run", bad
		}
		return
	}}
}
