package main

import (
	"fmt"
	"strings"
	"time"
	"unicode"

	"verif/harness/internal/cli"
	"verif/harness/internal/dart"
	"verif/harness/internal/model"
	"verif/harness/internal/report"
	"verif/harness/internal/tsws"
)

func init() {
	checks["C30"] = c30
}

// langTable is what a type's translation table has to hold.
type langTable struct {
	file  *model.File
	typ   string
	enum  *model.Enum
	langs map[string]bool              // "en" and every language that a text of the table is declared in
	names map[string]string            // key: the name it stands for
	texts map[string]map[string]string // key: language: declared text
}

func (t *langTable) add(key, name string, tags []model.Tag) {
	if t.texts[key] != nil {
		return
	}
	t.names[key] = name
	t.texts[key] = map[string]string{}
	if x := model.TagOf(tags, "lang"); x != nil {
		for _, kv := range x.KVs {
			l := model.Lower(kv.Key)
			t.langs[l] = true
			t.texts[key][l] = kv.Values[0]
		}
	}
}

// odd is a key that no table has, since it stands for no item or member.
func (t *langTable) odd(keys []string) string {
	for _, k := range keys {
		if t.texts[k] == nil {
			return k
		}
	}
	return ""
}

func uiValue(tags []model.Tag, key string) string {
	if t := model.TagOf(tags, "ui"); t != nil {
		for _, kv := range t.KVs {
			if kv.Key == key {
				return kv.Values[0]
			}
		}
	}
	return ""
}

// dartForms are the inputs that the Dart forms know.
var dartForms = map[string]bool{"text": true, "click": true, "file": true, "image": true, "menu": true, "date": true, "switch": true}

// langTables lists the tables of a file, by the spelling of keys in a target.
func langTables(f *model.File, item, member func(string) string, form func(kind string) bool) (out []*langTable) {
	for _, d := range f.Decls {
		t := &langTable{file: f, langs: map[string]bool{"en": true}, names: map[string]string{}, texts: map[string]map[string]string{}, typ: d.DeclName()}
		switch x := d.(type) {
		case *model.Enum:
			if !model.HasTag(x.Tags, "ui") {
				continue
			}
			t.enum = x
			for _, it := range x.Items {
				t.add(item(it.Name), it.Name, it.Tags)
			}
		case *model.Data:
			for _, fl := range x.AllFields() {
				if uiValue(x.Tags, "form") == "true" && form(uiValue(fl.Tags, "form")) || uiValue(x.Tags, "table") == "true" && uiValue(fl.Tags, "table") != "" {
					t.add(member(fl.Name), fl.Name, fl.Tags)
				}
			}
		default:
			continue
		}
		if len(t.texts) > 0 {
			out = append(out, t)
		}
	}
	return
}

// letters keeps what a name and a text derived from it share.
func letters(s string) string {
	var b strings.Builder
	for _, r := range strings.ToLower(s) {
		if unicode.IsLetter(r) || unicode.IsDigit(r) {
			b.WriteRune(r)
		}
	}
	return b.String()
}

// says judges the text of a key in a language.
func (t *langTable) says(key, lang, text string) (string, string) {
	if want, ok := t.texts[key][lang]; ok {
		if text != want {
			return "declared", fmt.Sprintf("%s of %s in %s is %q, declared is %q", key, t.typ, lang, text, want)
		}
		return "", ""
	}
	name := t.names[key]
	first := []rune(text + " ")[0]
	if letters(text) != letters(name) || unicode.IsLower(first) && unicode.ToUpper(first) != first || text != strings.TrimSpace(text) {
		return "derived", fmt.Sprintf("%s of %s has no text in %s, and the table gives %q for it", name, t.typ, lang, text)
	}
	return "", ""
}

func c30() {
	r := report.New("C30", "the translation tables of a type of a random valid schema set, generated for TypeScript and Dart, read in every language and in undeclared ones; non-trivial: the table has two keys and a declared text")
	bin := cli.Build(r)
	dl := r.Budget(100*time.Second, 12*time.Minute)
	o := dartOpts
	o.MoreEnums = true
	for n := 0; n < r.N(12, 150) && time.Now().Before(dl); n++ {
		tb, db := tsws.New(r, bin), newDart(r, bin)
		for i := 0; i < 50; i++ {
			rng := model.NewRng(r.Seed*59_000_003 + int64(n*1000+i))
			s := model.GenSchema(rng, o)
			if rng.P(0.3) {
				model.AddTags(rng, s)
			}
			model.AddDomainTags(rng, s, model.Domain{Lang: true, UI: true, Verify: rng.P(0.2)})
			src := s.Sources(nil)
			tb.Add(s, src)
			db.Add(s, src)
		}
		done := make(chan bool)
		go func() { tb.Compile(); done <- true }()
		db.Compile()
		<-done
		tb.Report()
		db.Report()
		r.Count("schemas compiled (TypeScript)", int64(len(tb.Good())))
		r.Count("schemas loaded (Dart)", int64(len(db.Good())))
		var ts []*tsTodo
		for _, c := range tb.Good() {
			for _, f := range c.S.Files {
				ts = append(ts, tsTables(r, c, f)...)
			}
		}
		tsPerform(r, tb, ts)
		var ds []*dartTodo
		for _, c := range db.Good() {
			for _, f := range c.S.Files {
				for _, t := range langTables(f, model.AllUpper, model.Lower, func(k string) bool { return dartForms[k] }) {
					ds = append(ds, &dartTodo{c: c, what: "the texts of " + t.typ, f: func() (string, string) { return c.table(r, t) }})
				}
				for _, e := range f.Decls {
					if e, ok := e.(*model.Enum); ok && !model.HasTag(e.Tags, "ui") {
						ds = append(ds, &dartTodo{c: c, what: "the texts of " + e.Name, f: func() (string, string) { return c.plainTexts(e) }})
					}
				}
			}
		}
		dartPerform(r, ds)
		tb.Drop()
		db.Drop()
	}
	r.Finish()
}

// tsTables reads a file's tables in TypeScript.
func tsTables(r *report.Run, c *tsws.Case, f *model.File) (ts []*tsTodo) {
	tabs := langTables(f, model.Hump, model.Lower, func(k string) bool { return k != "" })
	name := f.Base() + ".lang.ts"
	for _, t := range tabs {
		declared := 0
		for _, m := range t.texts {
			declared += len(m)
		}
		r.Case(fmt.Sprint(t.typ, t.texts), len(t.texts) > 1 && declared > 0)
	}
	if _, ok := c.Files[name]; !ok {
		if len(tabs) > 0 {
			r.Violation("ts-no-tables", "there are no tables for "+tabs[0].typ, c.Replay(name+" is missing"))
		}
		return nil
	}
	ts = append(ts, &tsTodo{c: c, what: "the tables of " + f.Base(), op: tsws.Op{"op": "lang", "mod": c.Mod(f, "lang")}, f: func(res map[string]any) (string, string) {
		all := asMap(res["tables"])
		var want []string
		for _, t := range tabs {
			n := model.Lower(t.typ) + "Lang"
			want = append(want, n)
			tab := asMap(all[n])
			if tab == nil {
				return "ts-table", "there is no table " + n
			}
			if got := sortedKeys(tab); strings.Join(got, " ") != strings.Join(sortedKeys(t.langs), " ") {
				return "ts-languages", fmt.Sprintf("%s has the languages %v, declared are %v", n, got, sortedKeys(t.langs))
			}
			for _, l := range sortedKeys(t.langs) {
				keys := asMap(tab[l])
				if got := sortedKeys(keys); strings.Join(got, " ") != strings.Join(sortedKeys(t.texts), " ") {
					return "ts-keys", fmt.Sprintf("%s.%s has the keys %v, there have to be %v", n, l, got, sortedKeys(t.texts))
				}
				for k, x := range keys {
					text, ok := x.(string)
					if !ok {
						return "ts-text", fmt.Sprintf("%s.%s.%s is %v", n, l, k, x)
					}
					r.Count("texts read (TypeScript)", 1)
					if key, d := t.says(k, l, text); key != "" {
						return "ts-" + key, d
					}
				}
			}
		}
		if len(all) != len(want) {
			return "ts-tables", fmt.Sprintf("there are the tables %v, there have to be %v", sortedKeys(all), want)
		}
		return "", ""
	}})
	// the key that an enum value asks for is in its table
	for _, t := range tabs {
		if t.enum != nil {
			ts = append(ts, &tsTodo{c: c, what: "the keys of " + t.typ, op: tsws.Op{"op": "enum", "t": c.Enum(t.enum)}, f: func(res map[string]any) (string, string) {
				l, _ := res["texts"].([]any)
				if len(l) != len(t.enum.Items) {
					return "ts-enum", fmt.Sprint(res["texts"])
				}
				for i, x := range l {
					if want := model.Lower(t.typ) + "Lang." + model.Hump(t.enum.Items[i].Name); x != want {
						return "ts-enum", fmt.Sprintf("%s of %s has the key %v, want %s", t.enum.Items[i].Name, t.typ, x, want)
					}
					r.Count("enum keys read (TypeScript)", 1)
				}
				return "", ""
			}})
		}
	}
	return
}

// table reads a table in Dart, in every language and in some that are not declared.
func (c *dartCase) table(r *report.Run, t *langTable) (key, detail string) {
	lib := c.W.Libs[t.file.Base()+".ui.dart"]
	if lib == nil {
		return "ui", "there is no " + t.file.Base() + ".ui.dart"
	}
	n := model.Hump(t.typ) + "Localizations"
	k := lib.Classes[n]
	if k == nil {
		return "table", "there is no class " + n
	}
	var keys []string
	for _, m := range k.Members {
		if m.Kind == "get" && !m.Static {
			keys = append(keys, m.Name)
		}
	}
	if o := t.odd(keys); o != "" || len(keys) != len(t.texts) {
		return "keys", fmt.Sprintf("%s has the keys %v, there have to be %v", n, keys, sortedKeys(t.texts))
	}
	var got any // what the surroundings give
	asked := ""
	c.W.Host = func(name string, this *dart.Obj, args []any, named map[string]any, ta []*dart.Type) (any, bool) {
		if name == "Localizations.of" {
			asked = fmt.Sprint(typeNames(ta))
			return got, true
		}
		return nil, false
	}
	defer func() { c.W.Host = nil }()
	bad := dartTry(func() {
		ctx := &dart.Obj{N: "BuildContext", F: map[string]any{}}
		dg := c.must(c.W.Static(k, "delegate", nil))
		values := map[*model.Item]any{}
		if t.enum != nil {
			l := c.must(c.W.Static(c.Enum(t.enum), "values", nil)).(*dart.List)
			for i, it := range t.enum.Items {
				values[it] = l.V[i]
			}
		}
		var langs []string
		for l := range t.langs {
			langs = append(langs, l)
		}
		for _, l := range append(langs, "xx", "", "-") {
			var o any
			if l == "-" {
				got = nil // no table in the surroundings
			} else {
				loc := &dart.Obj{N: "Locale", F: map[string]any{"languageCode": l}}
				if s := c.must(c.W.Call(dg, "isSupported", []any{loc}, nil)); s != true {
					key, detail = "supported", fmt.Sprintf("the table of %s does not support %q", t.typ, l)
					return
				}
				got = c.await(c.must(c.W.Call(dg, "load", []any{loc}, nil)))
				o = got
			}
			if x := c.must(c.W.Static(k, "of", []any{ctx})); o == nil {
				o = x
			} else if x != o {
				key, detail = "of", "of gives another table than the surroundings have"
				return
			}
			if asked != "["+n+"]" {
				key, detail = "of", fmt.Sprintf("of asks for %s, not for %s", asked, n)
				return
			}
			for _, k := range keys {
				text := c.text(o, k)
				r.Count("texts read (Dart)", 1)
				if key, detail = t.says(k, l, text); key != "" {
					return
				}
			}
			for it, v := range values {
				text, ok := c.must(c.W.Call(v, "toText", []any{ctx}, nil)).(string)
				r.Count("enum texts read (Dart)", 1)
				if want := c.text(o, model.AllUpper(it.Name)); !ok || text != want {
					key, detail = "enum-text", fmt.Sprintf("%s of %s has the text %q in %q, and its table %q", it.Name, t.typ, text, l, want)
					return
				}
			}
		}
	})
	if bad != "" {
		return "run", bad
	}
	return
}

// plainTexts judges the texts of an enum without a table.
func (c *dartCase) plainTexts(e *model.Enum) (key, detail string) {
	if bad := dartTry(func() {
		l := c.must(c.W.Static(c.Enum(e), "values", nil)).(*dart.List)
		for i, v := range l.V {
			if x := c.must(c.W.Call(v, "toText", []any{&dart.Obj{N: "BuildContext", F: map[string]any{}}}, nil)); x != model.Hump(e.Items[i].Name) {
				key, detail = "plain-text", fmt.Sprintf("%s of %s has the text %v", e.Items[i].Name, e.Name, x)
			}
		}
	}); bad != "" {
		return "run", bad
	}
	return
}
