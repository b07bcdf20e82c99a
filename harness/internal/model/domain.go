package model

import (
	"fmt"
	"strconv"
)

// Domain selects the tags with a meaning for some target that AddDomainTags adds.
type Domain struct {
	Verify bool
	Lang   bool
	RpcTag bool
	DB     bool
	Cache  bool
	UI     bool
	Bind   bool
}

// DomainAny is every kind of tag.
var DomainAny = Domain{Verify: true, Lang: true, RpcTag: true, DB: true, Cache: true, UI: true, Bind: true}

// formatClasses says which format items suit which base types; an item's class
// is the part of its name before the digit.
var formatClasses = map[string][]string{
	Int8:    {"small", "octet", "signed", "plain"},
	Int16:   {"small", "word", "signed", "plain"},
	Int32:   {"small", "cell", "signed", "wide", "plain"},
	Int64:   {"small", "quad", "signed", "wide", "huge", "plain"},
	Uint8:   {"small", "uoctet", "plain"},
	Uint16:  {"small", "uword", "plain"},
	Uint32:  {"small", "ucell", "plain"},
	Uint64:  {"small", "uquad", "uhuge", "plain"},
	Float:   {"small", "signed", "frac", "plain"},
	Double:  {"small", "signed", "frac", "wide", "plain"},
	Decimal: {"small", "signed", "frac", "money", "plain"},
	String:  {"length", "reg", "both", "plain"},
	Date:    {"date", "plain"},
	Bool:    {"plain"},
	"enum":  {"plain"},
	"other": {"plain"},
}

var allClasses = []string{"small", "signed", "wide", "huge", "uhuge", "frac", "money", "length", "reg", "both", "date", "octet", "word", "cell", "quad", "uoctet", "uword", "ucell", "uquad", "plain"}

// Regs are regular expressions with the same meaning in Go, JavaScript and Dart.
var Regs = []string{`^[a-z]+$`, `^\d{3}$`, `^[A-Za-z0-9_]*$`, `^a.c$`, `[0-9]+`, `^(x|yy)*$`, `^"q"$`, `^\w+@\w+\.com$`, `^[^/]+/[a-z]$`, `^\S+$`, `^$`, `'`, `^\\+$`, `\$1`, `^A$`}

var bounds = map[string][2][]string{
	"small":  {{"0", "1", "5"}, {"5", "50", "100"}},
	"signed": {{"-100", "-5", "-1"}, {"-1", "0", "20"}},
	"wide":   {{"-2147483648", "-70000", "100000"}, {"100000", "2147483647"}},
	"huge":   {{"-9223372036854775808", "-9007199254740993", "9007199254740992"}, {"9007199254740993", "9223372036854775807"}},
	"uhuge":  {{"9007199254740993", "9223372036854775807"}, {"9223372036854775808", "18446744073709551615"}},
	"frac":   {{"-1.5", "0.5", "0.25", "0.250"}, {"0.5", "2.75", "100.125", "2.50"}},
	"money":  {{"-100.01", "0.1", "0.01", "0.00"}, {"0.3", "10.10", "99999999999999.99", "1000000000000000000000"}},
	"length": {{"1", "2", "3"}, {"3", "8", "20"}},
	"both":   {{"1", "2"}, {"4", "9"}},
	"octet":  {{"-128"}, {"127"}},
	"word":   {{"-32768"}, {"32767"}},
	"cell":   {{"-2147483648"}, {"2147483647"}},
	"quad":   {{"-9223372036854775808"}, {"9223372036854775807"}},
	"uoctet": {{"0"}, {"255"}},
	"uword":  {{"0"}, {"65535"}},
	"ucell":  {{"0"}, {"4294967295"}},
	"uquad":  {{"0"}, {"18446744073709551615"}},
	"date":   {{"1970-01-01T00:00:00Z", "2000-02-29T12:30:00Z", "1969-12-31T23:59:59Z"}, {"2000-02-29T12:30:00Z", "2038-01-19T03:14:08Z"}},
}

func (g *Gen) formatItem(class string, n int, id int) *Item {
	r := g.R
	t := Tag{Name: "format"}
	kv := func(k, v string) { t.KVs = append(t.KVs, KV{Key: k, Values: []string{v}}) }
	if b, ok := bounds[class]; ok {
		k := r.Intn(4)
		lo, hi := r.Intn(len(b[0])), r.Intn(len(b[1]))
		if k != 0 {
			kv("min", b[0][lo])
		}
		if k != 1 {
			kv("max", b[1][hi])
		}
	}
	if class == "reg" || class == "both" {
		kv("reg", Pick(r, Regs))
	}
	if r.P(0.4) || len(t.KVs) == 0 {
		kv("null", Pick(r, []string{"true", "false"}))
	}
	r.Shuffle(len(t.KVs), func(i, j int) { t.KVs[i], t.KVs[j] = t.KVs[j], t.KVs[i] })
	it := &Item{Name: class + strconv.Itoa(n), Id: strconv.Itoa(id), Value: id, Tags: []Tag{t}}
	if r.P(0.05) {
		it.Tags = nil // an item without a format says nothing
	}
	return it
}

func formatType(t Type) string {
	if t.Cont != None {
		return "other"
	}
	switch t.Elem.Kind {
	case KBase:
		return t.Elem.Base
	case KEnum:
		return "enum"
	}
	return "other"
}

// langTexts avoid characters that no target could carry.
var langTexts = []string{"Name", "名称", "it's", `say "hi"`, "a b", "50%", "$x ${y}", `c:\dir`, "Größe", "x", "tick", "<b>", "tab	end", "two\nlines", "`tick`", "😀 é", "a\u2028b", "nul\x01", "</script>", "\\n", "#{x} %s {0}"}

func (g *Gen) lang() Tag {
	r := g.R
	t := Tag{Name: "lang"}
	used := map[string]bool{}
	for i, n := 0, r.Range(1, 3); i < n; i++ {
		k := Pick(r, []string{"en", "zh", "fr", "de", "zh_CN", "ES"})
		if !used[Lower(k)] {
			used[Lower(k)] = true
			t.KVs = append(t.KVs, KV{Key: k, Values: []string{Pick(r, langTexts)}, Esc: r.P(0.3)})
		}
	}
	return t
}

// AddDomainTags adds tags that the targets give a meaning to.
func AddDomainTags(r *Rng, s *Schema, o Domain) {
	g := &Gen{R: r, types: map[string]bool{}, extended: map[*Server]bool{}}
	for _, x := range s.Servers() {
		for _, e := range x.Extends {
			g.extended[e.Server] = true
		}
	}
	for _, f := range s.Files {
		for _, d := range f.Decls {
			g.types[norm(d.DeclName())] = true
		}
	}
	codes := map[*File]*Enum{}
	for _, f := range s.Files {
		if o.Bind && r.P(0.6) {
			g.bind(f)
		}
		if o.Verify && r.P(0.8) {
			g.verify(f, codes)
		}
		if o.Lang && r.P(0.7) {
			for _, d := range f.Decls {
				switch x := d.(type) {
				case *Enum:
					for _, it := range x.Items {
						if r.P(0.6) {
							it.Tags = append(it.Tags, g.lang())
						}
					}
				case *Data:
					for _, fl := range x.Fields {
						if r.P(0.4) {
							fl.Tags = append(fl.Tags, g.lang())
						}
					}
				}
			}
		}
		if o.UI && r.P(0.6) {
			g.ui(f)
		}
		if o.RpcTag {
			for _, d := range f.Decls {
				if x, ok := d.(*Server); ok {
					for _, m := range x.Methods {
						if r.P(0.4) {
							t := Tag{Name: "tag"}
							keys := []string{"auth", "role", "log", "rate_limit"}
							r.Shuffle(4, func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
							for i, n := 0, r.Range(1, 3); i < n; i++ {
								kv := KV{Key: keys[i]}
								for j, k := 0, r.Range(1, 3); j < k; j++ {
									kv.Values = append(kv.Values, Pick(r, []string{"admin", "a b", "é", "x=1", "", `q"q`, `b\n`, "100", " pad ", "ADMIN", "Read,Write", "%d"}))
								}
								t.KVs = append(t.KVs, kv)
							}
							m.Tags = append(m.Tags, t)
						}
					}
				}
			}
		}
	}
	if o.DB {
		for _, f := range s.Files {
			if r.P(0.5) {
				g.addDB(s, f, o)
			}
		}
	}
}

// bind gives servers methods that hand on to a method of another server.
func (g *Gen) bind(f *File) {
	r := g.R
	_, ds, ss := g.visible(f)
	sees := map[*Data]bool{}
	for _, d := range ds {
		sees[d] = true
	}
	for _, x := range f.Decls {
		s, ok := x.(*Server)
		if !ok {
			continue
		}
		used := map[string]bool{"init": true, "getname": true, "getid": true}
		for _, m := range s.AllMethods() {
			used[norm(m.Name)] = true
		}
		// a server below s must not declare the name either
		if g.extended[s] {
			continue
		}
		for k := r.Range(0, 2); k > 0; k-- {
			t := Pick(r, ss)
			if t == s || len(t.Methods) == 0 {
				continue
			}
			bm := Pick(r, t.Methods)
			if !sees[bm.Param] || bm.Result != nil && !sees[bm.Result] || HasTag(bm.Tags, "bind") {
				continue
			}
			m := &Method{Name: g.FieldName(methodWords, fieldWords2, used), ParamName: Pick(r, []string{"req", "request", "in_data", "arg"}), Id: strconv.Itoa(100 + k), Param: g.wrap(f, bm.Param)}
			if bm.Result != nil && r.P(0.85) {
				m.Result = g.wrap(f, bm.Result)
			}
			m.Tags = append(m.Tags, Tag{Name: "bind", KVs: []KV{{Key: "value", Values: []string{t.Name + "." + bm.Name}}}})
			s.Methods = append(s.Methods, m)
		}
	}
}

// wrap gives d itself or a new data that extends it, directly or not.
func (g *Gen) wrap(f *File, d *Data) *Data {
	r := g.R
	for r.P(0.6) {
		used := map[string]bool{}
		for _, a := range append([]*Data{d}, d.Ancestors()...) {
			used[norm(a.Name)] = true
		}
		for _, fl := range d.AllFields() {
			used[norm(fl.Name)] = true
		}
		n := &Data{File: f, Name: g.TypeName(typeWords, []string{"Wrap", "Envelope", "Full"}), Extends: []Ext{{Data: d, Id: "1"}}}
		for i := r.Range(0, 2); i > 0; i-- {
			t := Type{Elem: Ref{Kind: KBase, Base: Pick(r, []string{Int32, String, Int64, Bool, Decimal}), Null: r.P(0.4)}}
			n.Fields = append(n.Fields, &Field{Type: t, Name: g.FieldName(fieldWords, fieldWords2, used), Id: strconv.Itoa(i)})
		}
		f.Decls = append(f.Decls, n)
		d = n
	}
	return d
}

// Bound gives the method that m hands on to, or nil.
func Bound(m BoundMethod) (*Server, *Method) {
	t := tagOf(m.Tags, "bind")
	if t == nil {
		return nil, nil
	}
	for _, f := range append([]*File{m.Decl.File}, m.Decl.File.Imports...) {
		for _, d := range f.Decls {
			if s, ok := d.(*Server); ok {
				for _, x := range s.Methods {
					if s.Name+"."+x.Name == t.KVs[0].Values[0] {
						return s, x
					}
				}
			}
		}
	}
	return nil, nil
}

// FirstVerdict is the format that the first member to break one breaks.
func (d *Data) FirstVerdict(v Obj) *Format {
	for _, bf := range d.BoundFields() {
		if f := bf.Verdict(v[bf.Name]); f != nil {
			return f
		}
	}
	return nil
}

// ui marks data for forms and tables, their members as inputs and columns, and enums.
func (g *Gen) ui(f *File) {
	r := g.R
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *Enum:
			if r.P(0.5) {
				x.Tags = append(x.Tags, Tag{Name: "ui", KVs: []KV{{Key: "form", Values: []string{"true"}}}})
			}
		case *Data:
			if !r.P(0.7) {
				continue
			}
			t := Tag{Name: "ui", KVs: []KV{{Key: "form", Values: []string{Pick(r, []string{"true", "true", "false"})}}, {Key: "table", Values: []string{Pick(r, []string{"true", "true", "false"})}}}}
			x.Tags = append(x.Tags, t)
			for i := 0; i < 2 && r.P(0.4); i++ {
				// dates have the most kinds of inputs
				t := Type{Elem: Ref{Kind: KBase, Base: Date, Null: r.P(0.5)}}
				if r.P(0.6) {
					t.Cont, t.ContNull = Array, r.P(0.5)
				}
				x.Fields = append(x.Fields, &Field{Type: t, Name: fmt.Sprintf("span%s%d", x.Name, i), Id: strconv.Itoa(210 + i)})
			}
			for _, fl := range x.Fields {
				if !r.P(0.7) {
					continue
				}
				ks := []string{"text"}
				switch {
				case fl.Type.Cont == Map || fl.Type.Elem.Kind == KData:
				case fl.Type.Elem.Kind == KEnum:
					ks = []string{"menu", "radio", "radioButton"}
				case fl.Type.Elem.Base == Date:
					ks = []string{"date", "datetime", "month", "year", "dates"}
				case fl.Type.Elem.Base == Bool && fl.Type.Cont == None:
					ks = []string{"switch", "text"}
				case fl.Type.Elem.Base == String:
					ks = []string{"text", "pass", "click", "image", "file"}
				}
				t := Tag{Name: "ui"}
				kv := func(k, v string) { t.KVs = append(t.KVs, KV{Key: k, Values: []string{v}}) }
				if r.P(0.8) {
					kv("form", Pick(r, ks))
				}
				if r.P(0.7) || len(t.KVs) == 0 {
					ts := []string{"text", "text", "switch"}
					if fl.Type.Cont != Map && fl.Type.Elem.Base == String {
						ts = append(ts, "image")
					}
					kv("table", Pick(r, ts))
				}
				for _, o := range [][2]string{{"onlyRead", "true"}, {"digit", "2"}, {"index", "3"}, {"format", Pick(r, []string{"yyyy/MM/dd", `dd "of" MM`, `yy\MM`, "HH:mm"})}, {"width", "120.5"}, {"height", "80"}, {"maxLine", "4"}, {"maxCount", "3"}, {"clip", "true"}, {"toNull", "true"}, {"unlink", "true"}, {"extensions", "png"}} {
					if r.P(0.15) {
						kv(o[0], o[1])
						t.KVs[len(t.KVs)-1].Esc = o[0] == "format" && r.P(0.3)
					}
				}
				r.Shuffle(len(t.KVs), func(i, j int) { t.KVs[i], t.KVs[j] = t.KVs[j], t.KVs[i] })
				fl.Tags = append(fl.Tags, t)
			}
		}
	}
}

// verify gives the file an enum of formats, and members that use them.
func (g *Gen) verify(f *File, codes map[*File]*Enum) {
	r := g.R
	var e *Enum
	for _, im := range f.Imports {
		if codes[im] != nil && r.P(0.5) {
			e = codes[im]
		}
	}
	if e == nil {
		e = &Enum{File: f, Name: g.TypeName(typeWords, []string{"Error", "Check", "Rule"})}
		id := 0
		for _, c := range allClasses {
			for n := 1; n <= 3; n++ {
				e.Items = append(e.Items, g.formatItem(c, n, id))
				id += r.Range(1, 5)
			}
		}
		f.Decls = append(f.Decls, e)
		codes[f] = e
	}
	for _, d := range f.Decls {
		x, ok := d.(*Data)
		if !ok {
			continue
		}
		if r.P(0.6) {
			x.Tags = append(x.Tags, Tag{Name: "verify", KVs: []KV{{Key: "format", Values: []string{e.Name + "." + e.Items[0].Name}}}})
		}
		for _, fl := range x.Fields {
			if !r.P(0.6) || x.Redeclared(fl.Name) {
				continue
			}
			cs := formatClasses[formatType(fl.Type)]
			kv := KV{Key: "format"}
			for i, n := 0, r.Range(1, 3); i < n; i++ {
				kv.Values = append(kv.Values, fmt.Sprintf("%s.%s%d", e.Name, Pick(r, cs), r.Range(1, 3)))
			}
			fl.Tags = append(fl.Tags, Tag{Name: "verify", KVs: []KV{kv}})
		}
	}
}

// Format is what a format item demands.
type Format struct {
	Code          *Enum
	Item          *Item
	HasNull, Null bool
	Min, Max, Reg string
}

func tagOf(tags []Tag, name string) *Tag {
	for i := range tags {
		if tags[i].Name == name {
			return &tags[i]
		}
	}
	return nil
}

// HasTag says whether a tag is among tags.
func HasTag(tags []Tag, name string) bool { return tagOf(tags, name) != nil }

// TagOf gives the tag of that name or nil.
func TagOf(tags []Tag, name string) *Tag { return tagOf(tags, name) }

// Formats lists the formats of a member, in order; items without a format are left out.
func (f *File) Formats(fl *Field) (out []Format) {
	t := tagOf(fl.Tags, "verify")
	if t == nil {
		return nil
	}
	for _, kv := range t.KVs {
		if kv.Key != "format" {
			continue
		}
		for _, v := range kv.Values {
			for _, x := range append([]*File{f}, f.Imports...) {
				for _, d := range x.Decls {
					e, ok := d.(*Enum)
					if !ok {
						continue
					}
					for _, it := range e.Items {
						if e.Name+"."+it.Name != v {
							continue
						}
						ft := tagOf(it.Tags, "format")
						if ft == nil {
							continue
						}
						o := Format{Code: e, Item: it}
						for _, k := range ft.KVs {
							switch k.Key {
							case "null":
								o.HasNull, o.Null = true, k.Values[0] == "true"
							case "min":
								o.Min = k.Values[0]
							case "max":
								o.Max = k.Values[0]
							case "reg":
								o.Reg = k.Values[0]
							}
						}
						out = append(out, o)
					}
				}
			}
		}
	}
	return
}
