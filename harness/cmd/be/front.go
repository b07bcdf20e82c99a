package main

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"

	"verif/harness/internal/cli"
	"verif/harness/internal/model"
	"verif/harness/internal/refparse"
	"verif/harness/internal/report"
)

var targets = []string{"go", "ts", "dart", "java"}

func init() {
	checks["C06"] = c06
	checks["C07"] = c07
	checks["C08"] = c08
	checks["C09"] = c09
	checks["C10"] = c10
}

// closure lists f and everything it imports.
func closure(fs ...*model.File) []*model.File {
	var out []*model.File
	seen := map[*model.File]bool{}
	var walk func(f *model.File)
	walk = func(f *model.File) {
		if seen[f] {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, i := range f.Imports {
			walk(i)
		}
	}
	for _, f := range fs {
		walk(f)
	}
	return out
}

// wantFiles lists the files a target must write for a schema file.
func wantFiles(f *model.File, target string) []string {
	var data, enum, server bool
	for _, d := range f.Decls {
		switch d.(type) {
		case *model.Data:
			data = true
		case *model.Enum:
			enum = true
		case *model.Server:
			server = true
		}
	}
	var out []string
	add := func(ok bool, kind string) {
		if !ok {
			return
		}
		switch target {
		case "go":
			if f.GoPkg != "" {
				out = append(out, path.Join(strings.ReplaceAll(f.GoPkg, ".", "/"), f.Base()+"."+kind+".go"))
			}
		case "java":
			out = append(out, model.Hump(f.Base())+model.Hump(kind)+".java")
		default:
			out = append(out, f.Base()+"."+kind+"."+target)
		}
	}
	add(data, "data")
	add(enum, "enum")
	add(server, "server")
	return out
}

// belongs says whether a written file's name derives from one of the schema files.
func belongs(name, target string, fs []*model.File) bool {
	for _, f := range fs {
		switch target {
		case "go":
			if f.GoPkg != "" && path.Dir(name) == strings.ReplaceAll(f.GoPkg, ".", "/") && regexp.MustCompile(`^`+regexp.QuoteMeta(f.Base())+`\.(data|enum|server|database|verify)\.go$`).MatchString(path.Base(name)) {
				return true
			}
		case "java":
			if regexp.MustCompile(`^` + regexp.QuoteMeta(model.Hump(f.Base())) + `(Data|Enum|Server)\.java$`).MatchString(name) {
				return true
			}
		default:
			if regexp.MustCompile(`^` + regexp.QuoteMeta(f.Base()) + `\.(data|enum|server|verify|lang|ui)\.` + target + `x?$`).MatchString(name) {
				return true
			}
		}
	}
	return false
}

var docsOn = model.Opts{Files: 4, Decls: 7, Servers: true, Subdirs: true, Packages: true, NoPkg: true, Docs: true, TypeCase: true, Override: true, Diamond: true, HexIds: true, NoZero: true, Mutual: true, EmptyEnum: true, MapKeys: model.BaseTypes}

// pickInput chooses what to pass to -i: a pattern for everything or one file.
func pickInput(r *model.Rng, s *model.Schema) (pattern string, sel []*model.File) {
	if r.P(0.5) {
		return "*.hbuf", s.Files
	}
	// names are distinct, so that a name at the top of the tree selects one file
	f := model.Pick(r, s.Files)
	return path.Base(f.Path), closure(f)
}

func c06() {
	r := report.New("C06", "a random valid schema set in a random layout (documentation, unknown and known tags, inheritance, nested nullability, relative imports, import cycles) compiled for all four targets with a pattern or one file as input; non-trivial: at least two files or eight declarations")
	bin := cli.Build(r)
	dl := r.Budget(60*time.Second, 10*time.Minute)
	cli.Parallel(12, r.N(8000, 60000), dl, func(i int) {
		rng := model.NewRng(r.Seed*1_000_003 + int64(i))
		s := model.GenSchema(rng, docsOn)
		nd := 0
		for _, f := range s.Files {
			nd += len(f.Decls)
		}
		if rng.P(0.5) {
			model.AddTags(rng, s)
		}
		if rng.P(0.5) {
			model.AddDomainTags(rng, s, model.DomainAny)
		}
		src := s.Sources(rng)
		dir := cli.Dir()
		defer cli.Drop(dir)
		cli.Write(dir+"/in", src)
		pat, sel := pickInput(rng, s)
		for _, t := range targets {
			x := cli.Gen(bin, dir+"/in/"+pat, dir+"/out/"+t, t, "gen/")
			r.Case(cli.Hash(src, t, pat), len(s.Files) > 1 || nd >= 8)
			r.Count("compilations", 1)
			r.Seen("targets", t)
			replay := "hbuf -i in/" + pat + " -o out -t " + t + " -p gen/\n\n" + cli.Show(src)
			if x.Code != 0 || x.Out != "" || x.Hung {
				key := "rejected-" + t
				if x.Crashed() {
					key = "crash-" + t
				}
				r.Violation(key, fmt.Sprintf("target %s: exit status %d, output:\n%s", t, x.Code, x.Out), replay)
				continue
			}
			got := cli.Tree(dir + "/out/" + t)
			for _, f := range sel {
				for _, w := range wantFiles(f, t) {
					r.Count("expected files", 1)
					if _, ok := got[w]; !ok {
						r.Violation("missing-"+t, fmt.Sprintf("target %s: %s was not written; written: %v", t, w, cli.Names(got)), replay)
					}
				}
			}
			r.Count("files written", int64(len(got)))
		}
		if i < 2 {
			r.Sample(s.String())
		}
	})
	r.Finish()
}

// ---- defects ----

type mark any // *Data, *Enum, *Server, *Field, *Item, *Method, model.ImportKey, *Tag, or *File for any line of it

var reserved = []string{"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "bool", "float", "double", "string", "date", "decimal", "enum", "data", "server", "import", "package"}

type defect struct {
	name string
	f    func(r *model.Rng, s *model.Schema) []mark // nil: not applicable here
}

func datasOf(f *model.File) (o []*model.Data) {
	for _, d := range f.Decls {
		if x, ok := d.(*model.Data); ok {
			o = append(o, x)
		}
	}
	return
}
func serversOf(f *model.File) (o []*model.Server) {
	for _, d := range f.Decls {
		if x, ok := d.(*model.Server); ok {
			o = append(o, x)
		}
	}
	return
}
func enumsOf(f *model.File) (o []*model.Enum) {
	for _, d := range f.Decls {
		if x, ok := d.(*model.Enum); ok {
			o = append(o, x)
		}
	}
	return
}

func insertDecl(r *model.Rng, f *model.File, d model.Decl) {
	i := r.Intn(len(f.Decls) + 1)
	f.Decls = append(f.Decls[:i:i], append([]model.Decl{d}, f.Decls[i:]...)...)
}

func newDecl(r *model.Rng, f *model.File, name string) model.Decl {
	switch r.Intn(3) {
	case 0:
		return &model.Enum{File: f, Name: name, Items: []*model.Item{{Name: "zero", Id: "0"}}}
	case 1:
		return &model.Server{File: f, Name: name}
	}
	return &model.Data{File: f, Name: name, Fields: []*model.Field{{Type: model.Type{Elem: model.Ref{Base: "int32"}}, Name: "only", Id: "1"}}}
}

// fillers gives how many elements to put around a defect.
func fillers(r *model.Rng) int { return max(0, r.Range(-40, 16)) }

// sameKind makes another declaration of d's name. It is of the same kind, since a
// use of the name might otherwise be the first thing found wrong.
func sameKind(r *model.Rng, f *model.File, d model.Decl) model.Decl {
	for {
		n := newDecl(r, f, d.DeclName())
		if fmt.Sprintf("%T", n) == fmt.Sprintf("%T", d) {
			return n
		}
	}
}

// invisible names a type that the file cannot use as a member type.
func invisible(r *model.Rng, s *model.Schema, f *model.File, forExt string) string {
	vis := map[string]bool{}
	for _, x := range append([]*model.File{f}, f.Imports...) {
		for _, d := range x.Decls {
			vis[d.DeclName()] = true
		}
	}
	var far []string
	for _, x := range s.Files {
		for _, d := range x.Decls {
			if !vis[d.DeclName()] {
				far = append(far, d.DeclName())
			}
		}
	}
	var wrong []string
	for _, x := range append([]*model.File{f}, f.Imports...) {
		for _, d := range x.Decls {
			switch d.(type) {
			case *model.Server:
				if forExt == "member" || forExt == "data" || forExt == "method" || forExt == "key" {
					wrong = append(wrong, d.DeclName())
				}
			case *model.Enum:
				if forExt == "data" || forExt == "server" || forExt == "method" {
					wrong = append(wrong, d.DeclName())
				}
			case *model.Data:
				if forExt == "server" || forExt == "key" {
					wrong = append(wrong, d.DeclName())
				}
			}
		}
	}
	switch k := r.Intn(3); {
	case k == 0 && len(far) > 0:
		return model.Pick(r, far)
	case k == 1 && len(wrong) > 0:
		return model.Pick(r, wrong)
	}
	return model.Pick(r, []string{"Nowhere", "void", "Int8", "str", "list", "any", "Bool"})
}

type tagged struct {
	tags *[]model.Tag
	el   any
}

func allTagged(s *model.Schema) (o []tagged) {
	for _, f := range s.Files {
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *model.Enum:
				o = append(o, tagged{&x.Tags, x})
				for _, i := range x.Items {
					o = append(o, tagged{&i.Tags, i})
				}
			case *model.Data:
				o = append(o, tagged{&x.Tags, x})
				for _, i := range x.Fields {
					o = append(o, tagged{&i.Tags, i})
				}
			case *model.Server:
				o = append(o, tagged{&x.Tags, x})
				for _, i := range x.Methods {
					o = append(o, tagged{&i.Tags, i})
				}
			}
		}
	}
	return
}

func sameNumber(r *model.Rng, id string) string {
	n, err := strconv.ParseInt(id, 0, 64)
	if err != nil || r.P(0.5) {
		return id
	}
	return model.Notation(r, n)
}

var defects = []defect{
	{"duplicate type in one file", func(r *model.Rng, s *model.Schema) []mark {
		f := model.Pick(r, s.Files)
		d := model.Pick(r, f.Decls)
		n := sameKind(r, f, d)
		insertDecl(r, f, n)
		for i := fillers(r); i > 0; i-- {
			insertDecl(r, f, newDecl(r, f, fmt.Sprint("Filler", i)))
		}
		return []mark{d, n}
	}},
	{"duplicate type across an import", func(r *model.Rng, s *model.Schema) []mark {
		f := model.Pick(r, s.Files)
		if len(f.Imports) == 0 {
			return nil
		}
		d := model.Pick(r, model.Pick(r, f.Imports).Decls)
		n := sameKind(r, f, d)
		insertDecl(r, f, n)
		return []mark{d, n}
	}},
	{"reserved type name", func(r *model.Rng, s *model.Schema) []mark {
		f := model.Pick(r, s.Files)
		n := newDecl(r, f, model.Pick(r, reserved))
		insertDecl(r, f, n)
		return []mark{n}
	}},
	{"reserved member name", func(r *model.Rng, s *model.Schema) []mark {
		var all []*model.Field
		for _, d := range s.Datas() {
			all = append(all, d.Fields...)
		}
		if len(all) == 0 {
			return nil
		}
		f := model.Pick(r, all)
		f.Name = model.Pick(r, reserved)
		return []mark{f}
	}},
	{"reserved item name", func(r *model.Rng, s *model.Schema) []mark {
		es := s.Enums()
		if len(es) == 0 {
			return nil
		}
		e := model.Pick(r, es)
		if len(e.Items) == 0 {
			return nil
		}
		it := model.Pick(r, e.Items)
		it.Name = model.Pick(r, reserved)
		return []mark{it, e}
	}},
	{"reserved method or parameter name", func(r *model.Rng, s *model.Schema) []mark {
		var all []*model.Method
		for _, d := range s.Servers() {
			all = append(all, d.Methods...)
		}
		if len(all) == 0 {
			return nil
		}
		m := model.Pick(r, all)
		if r.P(0.5) {
			m.Name = model.Pick(r, reserved)
		} else {
			m.ParamName = model.Pick(r, reserved)
		}
		return []mark{m}
	}},
	{"unknown base", func(r *model.Rng, s *model.Schema) []mark {
		f := model.Pick(r, s.Files)
		if ss := serversOf(f); len(ss) > 0 && r.P(0.4) {
			x := model.Pick(r, ss)
			x.Extends = append(x.Extends, model.Ext{Raw: invisible(r, s, f, "server"), Id: "77"})
			return []mark{x}
		}
		ds := datasOf(f)
		if len(ds) == 0 {
			return nil
		}
		x := model.Pick(r, ds)
		e := model.Ext{Raw: invisible(r, s, f, "data"), Id: "77"}
		if r.P(0.2) {
			e.Raw = model.Pick(r, reserved)
		}
		i := r.Intn(len(x.Extends) + 1)
		x.Extends = append(x.Extends[:i:i], append([]model.Ext{e}, x.Extends[i:]...)...)
		return []mark{x}
	}},
	{"repeated base", func(r *model.Rng, s *model.Schema) []mark {
		for _, i := range r.Perm(len(s.Files)) {
			f := s.Files[i]
			for _, d := range f.Decls {
				switch x := d.(type) {
				case *model.Data:
					if len(x.Extends) > 0 {
						x.Extends = slices.Insert(x.Extends, r.Intn(len(x.Extends)+1), model.Pick(r, x.Extends))
						return []mark{x}
					}
				case *model.Server:
					if len(x.Extends) > 0 {
						x.Extends = slices.Insert(x.Extends, r.Intn(len(x.Extends)+1), model.Pick(r, x.Extends))
						return []mark{x}
					}
				}
			}
		}
		return nil
	}},
	{"unknown member type", func(r *model.Rng, s *model.Schema) []mark {
		f := model.Pick(r, s.Files)
		for _, d := range datasOf(f) {
			if len(d.Fields) > 0 {
				x := model.Pick(r, d.Fields)
				n := invisible(r, s, f, "member")
				x.RawType = n + model.Pick(r, []string{"", "?", "[]", "?[]", "<string>", "[]?", "<int32>?"})
				return []mark{x}
			}
		}
		return nil
	}},
	{"illegal map key", func(r *model.Rng, s *model.Schema) []mark {
		f := model.Pick(r, s.Files)
		for _, d := range datasOf(f) {
			if len(d.Fields) > 0 {
				x := model.Pick(r, d.Fields)
				if r.P(0.4) {
					x.RawType = "int32<string?>" + model.Pick(r, []string{"", "?"})
				} else {
					x.RawType = "string<" + invisible(r, s, f, "key") + ">" + model.Pick(r, []string{"", "?"})
				}
				return []mark{x}
			}
		}
		return nil
	}},
	{"duplicate member", func(r *model.Rng, s *model.Schema) []mark {
		ds := s.Datas()
		r.Shuffle(len(ds), func(i, j int) { ds[i], ds[j] = ds[j], ds[i] })
		for _, d := range ds {
			if len(d.Fields) > 0 {
				x := model.Pick(r, d.Fields)
				n := &model.Field{Type: model.Type{Elem: model.Ref{Base: "bool"}}, Name: "fresh9", Id: "987654"}
				if r.P(0.5) {
					n.Name = x.Name
				} else {
					n.Id = sameNumber(r, x.Id)
				}
				i := r.Intn(len(d.Fields) + 1)
				d.Fields = append(d.Fields[:i:i], append([]*model.Field{n}, d.Fields[i:]...)...)
				for i := fillers(r); i > 0; i-- {
					d.Fields = slices.Insert(d.Fields, r.Intn(len(d.Fields)+1), &model.Field{Type: n.Type, Name: fmt.Sprint("filler", i), Id: fmt.Sprint(987000 + i)})
				}
				return []mark{x, n}
			}
		}
		return nil
	}},
	{"duplicate item", func(r *model.Rng, s *model.Schema) []mark {
		es := s.Enums()
		r.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
		for _, e := range es {
			if len(e.Items) > 0 {
				x := model.Pick(r, e.Items)
				n := &model.Item{Name: "fresh9", Id: "987654"}
				if r.P(0.5) {
					n.Name = x.Name
				} else {
					n.Id = sameNumber(r, x.Id)
				}
				i := r.Intn(len(e.Items) + 1)
				e.Items = append(e.Items[:i:i], append([]*model.Item{n}, e.Items[i:]...)...)
				for i := fillers(r); i > 0; i-- {
					e.Items = slices.Insert(e.Items, r.Intn(len(e.Items)+1), &model.Item{Name: fmt.Sprint("filler", i), Id: fmt.Sprint(987000 + i)})
				}
				return []mark{x, n}
			}
		}
		return nil
	}},
	{"duplicate method", func(r *model.Rng, s *model.Schema) []mark {
		for _, x := range s.Servers() {
			if len(x.Methods) > 0 {
				m := model.Pick(r, x.Methods)
				n := *m
				n.Id, n.Tags = "987654", nil
				i := r.Intn(len(x.Methods) + 1)
				x.Methods = append(x.Methods[:i:i], append([]*model.Method{&n}, x.Methods[i:]...)...)
				for i := fillers(r); i > 0; i-- {
					f := n
					f.Name, f.Id = fmt.Sprint("filler", i), fmt.Sprint(987000+i)
					x.Methods = slices.Insert(x.Methods, r.Intn(len(x.Methods)+1), &f)
				}
				return []mark{m, &n}
			}
		}
		return nil
	}},
	{"illegal method type", func(r *model.Rng, s *model.Schema) []mark {
		ss := s.Servers()
		r.Shuffle(len(ss), func(i, j int) { ss[i], ss[j] = ss[j], ss[i] })
		for _, x := range ss {
			if len(x.Methods) == 0 {
				continue
			}
			m := model.Pick(r, x.Methods)
			good := m.Param.Name
			bad := ""
			switch r.Intn(6) {
			case 0:
				bad = good + "?"
			case 1:
				bad = good + "[]"
			case 2:
				bad = good + "<string>"
			case 3:
				bad = model.Pick(r, reserved[:14])
			default:
				bad = invisible(r, s, x.File, "method")
			}
			if r.P(0.5) {
				m.RawParam = bad
			} else {
				if bad == "void" {
					bad = "Nowhere"
				}
				m.RawResult = bad
			}
			return []mark{m}
		}
		return nil
	}},
	{"repeated tag", func(r *model.Rng, s *model.Schema) []mark {
		t := model.Pick(r, allTagged(s))
		g := model.Tag{Name: "zz", KVs: []model.KV{{Key: "a", Values: []string{"1"}}}}
		*t.tags = append(*t.tags, g)
		for i := r.Range(-2, 8); i > 0; i-- {
			*t.tags = append(*t.tags, model.Tag{Name: fmt.Sprint("between", i), KVs: g.KVs})
		}
		*t.tags = append(*t.tags, g)
		n := len(*t.tags)
		return []mark{&(*t.tags)[n-1], &(*t.tags)[n-2], t.el}
	}},
	{"repeated tag key", func(r *model.Rng, s *model.Schema) []mark {
		t := model.Pick(r, allTagged(s))
		g := model.Tag{Name: "zz", KVs: []model.KV{{Key: "a", Values: []string{"1"}}, {Key: "b", Values: []string{"1"}}, {Key: model.Pick(r, []string{"a", "b"}), Values: []string{"2"}}}}
		for i := r.Range(-3, 8); i > 0; i-- {
			g.KVs = slices.Insert(g.KVs, 2, model.KV{Key: fmt.Sprint("k", i), Values: []string{"1"}})
		}
		if r.P(0.5) {
			*t.tags = append(*t.tags, model.Tag{Name: "before", KVs: g.KVs[:2]})
		}
		*t.tags = append(*t.tags, g)
		n := len(*t.tags)
		return []mark{&(*t.tags)[n-1], t.el}
	}},
	{"malformed or unknown verify format", func(r *model.Rng, s *model.Schema) []mark {
		type place struct {
			f *model.Field
			d *model.Data
		}
		var all []place
		var es []*model.Enum
		for _, d := range s.Datas() {
			for _, f := range d.Fields {
				all = append(all, place{f, d})
			}
		}
		for _, e := range s.Enums() {
			if len(e.Items) > 0 {
				es = append(es, e)
			}
		}
		if len(all) == 0 {
			return nil
		}
		p := model.Pick(r, all)
		f := p.f
		bad := model.Pick(r, []string{"", "small", ".", "Nowhere.x", "a.b.c", "int32.x"})
		if len(es) > 0 && r.P(0.5) {
			e := model.Pick(r, es)
			bad = e.Name + model.Pick(r, []string{"", ".", ".nope9", "." + e.Items[0].Name + ".x"})
		}
		if d := model.Pick(r, s.Datas()); r.P(0.2) {
			bad = d.Name + ".x"
		}
		kv := model.KV{Key: "format", Values: []string{bad}}
		if r.P(0.5) {
			// after, or before, a good one
			fine(r, p.d.File, &kv)
		}
		f.Tags = append(f.Tags, model.Tag{Name: "verify", KVs: []model.KV{kv}})
		return []mark{f, &f.Tags[len(f.Tags)-1]}
	}},
	{"verify format that does not suit the member", func(r *model.Rng, s *model.Schema) []mark {
		type place struct {
			f *model.Field
			d *model.Data
		}
		var all []place
		for _, d := range s.Datas() {
			for _, f := range d.Fields {
				if f.Type.Cont == model.None && f.Type.Elem.Kind == model.KBase && f.Type.Elem.Base != model.Bool {
					all = append(all, place{f, d})
				}
			}
		}
		if len(all) == 0 {
			return nil
		}
		p := model.Pick(r, all)
		noNum := []string{"abc", "", "1e", "0x", "5 ", "--1", "2020-01-01T00:00:00Z"}
		bad := append([]string{"1.5", "99999999999999999999999", "-99999999999999999999999"}, noNum...)
		switch p.f.Type.Elem.Base {
		case model.Int8:
			bad = append(bad, "128", "-129", "300")
		case model.Int16:
			bad = append(bad, "32768", "-32769")
		case model.Int32:
			bad = append(bad, "2147483648", "-2147483649")
		case model.Int64:
			bad = append(bad, "9223372036854775808", "-9223372036854775809")
		case model.Uint8:
			bad = append(bad, "-1", "256")
		case model.Uint16:
			bad = append(bad, "-1", "65536")
		case model.Uint32:
			bad = append(bad, "-1", "4294967296")
		case model.Uint64:
			bad = append(bad, "-1", "18446744073709551616")
		case model.Float, model.Double, model.Decimal:
			bad = noNum
		case model.String:
			bad = append([]string{"-1", "1.5"}, noNum...)
		case model.Date:
			bad = []string{"abc", "1", "2020-01-01", "2020-13-01T00:00:00Z", "2020-01-01T00:00:00", "2020-01-01 00:00:00Z"}
		}
		kv := model.KV{Key: model.Pick(r, []string{"min", "max"}), Values: []string{model.Pick(r, bad)}}
		if p.f.Type.Elem.Base == model.String && r.P(0.3) {
			kv = model.KV{Key: "reg", Values: []string{model.Pick(r, []string{"(", "[a", "a**", "(?<", "x{2,1}"})}}
		}
		if kv.Values[0] == "" {
			kv.Values[0] = "x"
		}
		en := &model.Enum{File: p.d.File, Name: "Strange_Code", Items: []*model.Item{{Name: "odd", Id: "1", Value: 1, Tags: []model.Tag{{Name: "format", KVs: []model.KV{kv}}}}}}
		insertDecl(r, p.d.File, en)
		use := model.KV{Key: "format", Values: []string{"Strange_Code.odd"}}
		if r.P(0.5) {
			fine(r, p.d.File, &use)
		}
		p.f.Tags = append(p.f.Tags, model.Tag{Name: "verify", KVs: []model.KV{use}})
		return []mark{p.f, &p.f.Tags[len(p.f.Tags)-1], en, en.Items[0], &en.Items[0].Tags[0]}
	}},
	{"cyclic inheritance", func(r *model.Rng, s *model.Schema) []mark {
		f := model.Pick(r, s.Files)
		n := r.Range(1, 4)
		if r.P(0.3) {
			n = r.Range(5, 20)
		}
		// optionally spread over two files importing one another
		g := f
		if len(f.Imports) > 0 && r.P(0.5) {
			g = model.Pick(r, f.Imports)
			has := false
			for _, i := range g.Imports {
				has = has || i == f
			}
			if !has {
				g.Imports = append(g.Imports, f)
			}
			// importing in both directions must not make another defect
			names := map[string]bool{}
			for _, d := range f.Decls {
				names[d.DeclName()] = true
			}
			for _, d := range g.Decls {
				if names[d.DeclName()] {
					return nil
				}
			}
		}
		var out []mark
		if r.P(0.6) {
			var ds []*model.Data
			for i := 0; i < n; i++ {
				h := f
				if i%2 == 1 {
					h = g
				}
				d := &model.Data{File: h, Name: "Cyc" + string(rune('A'+i))}
				insertDecl(r, h, d)
				ds = append(ds, d)
				out = append(out, d)
			}
			for i, d := range ds {
				d.Extends = []model.Ext{{Data: ds[(i+1)%n], Id: "1"}}
				if r.P(0.3) {
					// has a base besides
					b := &model.Data{File: d.File, Name: "Root" + string(rune('A'+i))}
					insertDecl(r, d.File, b)
					d.Extends = slices.Insert(d.Extends, r.Intn(2), model.Ext{Data: b, Id: "2"})
				}
			}
			if r.P(0.5) {
				// not part of the cycle itself
				insertDecl(r, f, &model.Data{File: f, Name: "Into_Cyc", Extends: []model.Ext{{Data: ds[0], Id: "1"}}})
			}
			if n%2 == 1 && n > 1 && g != f {
				// the last and the first are both in f, fine
			}
			return out
		}
		var ds []*model.Server
		for i := 0; i < n; i++ {
			h := f
			if i%2 == 1 {
				h = g
			}
			d := &model.Server{File: h, Name: "Cyc" + string(rune('A'+i))}
			insertDecl(r, h, d)
			ds = append(ds, d)
			out = append(out, d)
		}
		for i, d := range ds {
			d.Extends = []model.Ext{{Server: ds[(i+1)%n], Id: "1"}}
			if r.P(0.3) {
				b := &model.Server{File: d.File, Name: "Root" + string(rune('A'+i))}
				insertDecl(r, d.File, b)
				d.Extends = slices.Insert(d.Extends, r.Intn(2), model.Ext{Server: b, Id: "2"})
			}
		}
		if r.P(0.5) {
			insertDecl(r, f, &model.Server{File: f, Name: "Into_Cyc", Extends: []model.Ext{{Server: ds[0], Id: "1"}}})
		}
		return out
	}},
	{"malformed or unknown bind", func(r *model.Rng, s *model.Schema) []mark {
		ss := s.Servers()
		r.Shuffle(len(ss), func(i, j int) { ss[i], ss[j] = ss[j], ss[i] })
		for _, x := range ss {
			if len(x.Methods) == 0 {
				continue
			}
			m := model.Pick(r, x.Methods)
			other := model.Pick(r, x.Methods)
			bad := model.Pick(r, []string{"", "small", ".", "Nowhere." + other.Name, x.Name, x.Name + ".", x.Name + ".nope9", x.Name + "." + other.Name + ".x", other.Name, "." + other.Name,
				other.Param.Name + "." + other.Name, invisible(r, s, x.File, "server") + "." + other.Name})
			m.Tags = append(m.Tags, model.Tag{Name: "bind", KVs: []model.KV{{Key: "value", Values: []string{bad}}}})
			return []mark{m, &m.Tags[len(m.Tags)-1]}
		}
		return nil
	}},
	{"bind to a method that does not suit", func(r *model.Rng, s *model.Schema) []mark {
		ss := s.Servers()
		r.Shuffle(len(ss), func(i, j int) { ss[i], ss[j] = ss[j], ss[i] })
		for _, x := range ss {
			if len(x.Methods) == 0 {
				continue
			}
			m := model.Pick(r, x.Methods)
			odd := &model.Data{File: x.File, Name: "Odd_Data"}
			if r.P(0.5) {
				// derived from what would suit, which is the wrong way around
				odd.Extends = []model.Ext{{Data: m.Param, Id: "1"}}
			}
			to := &model.Method{Name: "odd_get", Param: m.Param, ParamName: "req", Result: m.Result, Id: "0"}
			if m.Result != nil && r.P(0.6) {
				to.Result = nil
				if r.P(0.6) {
					to.Result = odd
					odd.Extends = nil
					if r.P(0.5) {
						odd.Extends = []model.Ext{{Data: m.Result, Id: "1"}}
					}
				}
			} else {
				to.Param = odd
			}
			insertDecl(r, x.File, odd)
			insertDecl(r, x.File, &model.Server{File: x.File, Name: "Odd_Server", Methods: []*model.Method{to}})
			m.Tags = append(m.Tags, model.Tag{Name: "bind", KVs: []model.KV{{Key: "value", Values: []string{"Odd_Server.odd_get"}}}})
			return []mark{m, &m.Tags[len(m.Tags)-1]}
		}
		return nil
	}},
	{"unknown table or field of a db tag", func(r *model.Rng, s *model.Schema) []mark {
		f := model.Pick(r, s.Files)
		text := model.Type{Elem: model.Ref{Base: "string"}}
		key := func() *model.Field {
			return &model.Field{Type: text, Name: "odd_id", Id: "0", Tags: []model.Tag{{Name: "db", KVs: []model.KV{{Key: "key", Values: []string{"true"}}}}}}
		}
		d := &model.Data{File: f, Name: "Odd_Request", Fields: []*model.Field{key()}}
		insertDecl(r, f, d)
		if r.P(0.4) {
			plain := &model.Data{File: f, Name: "Odd_Plain", Fields: []*model.Field{key()}}
			insertDecl(r, f, plain)
			bad := []string{"Nowhere", "string", invisible(r, s, f, "table"), plain.Name}
			for _, x := range f.Decls {
				if e, ok := x.(*model.Enum); ok {
					bad = append(bad, e.Name)
				}
			}
			d.Tags = []model.Tag{{Name: "db", KVs: []model.KV{{Key: "table", Values: []string{model.Pick(r, bad)}}, {Key: "list", Values: []string{"self"}}}}}
			return []mark{d, &d.Tags[0]}
		}
		kvs := []model.KV{{Key: "name", Values: []string{"odd_request"}}, {Key: "get", Values: []string{"self"}}}
		if r.P(0.5) {
			t := &model.Data{File: f, Name: "Odd_Table", Fields: []*model.Field{key(), {Type: text, Name: "nope9", Id: "1", Tags: []model.Tag{{Name: "db", KVs: []model.KV{{Key: "name", Values: []string{"nope9"}}}}}}},
				Tags: []model.Tag{{Name: "db", KVs: []model.KV{{Key: "name", Values: []string{"odd_table"}}}}}}
			insertDecl(r, f, t)
			kvs[0] = model.KV{Key: "table", Values: []string{t.Name}}
		}
		d.Tags = []model.Tag{{Name: "db", KVs: kvs}}
		x := &model.Field{Type: text, Name: "odd_text", Id: "2"}
		d.Fields = append(d.Fields, x)
		switch r.Intn(3) {
		case 0:
			// a member, but not one of the table
			d.Fields = append(d.Fields, &model.Field{Type: text, Name: "nope9", Id: "3"})
		case 1:
			d.Fields = append(d.Fields, &model.Field{Type: text, Name: "Nope9", Id: "3", Tags: key().Tags})
		}
		k := model.Pick(r, []string{"where", "where", "set", "group", "order"})
		v := model.Pick(r, []string{"AND odd_id = ?{nope9}", "AND ${odd_id} = ${nope9}", "AND ${nope9} > ?", "AND odd_id = ?{odd_id} AND b < ?{nope9}"})
		kv := model.KV{Key: k, Values: []string{v}}
		if k == "where" && r.P(0.4) {
			kv.Values = []string{"AND odd_id = ?", v}
		}
		x.Tags = []model.Tag{{Name: "db", KVs: []model.KV{kv}}}
		if r.P(0.4) {
			// in one of several tags
			good := model.Tag{Name: "db", KVs: []model.KV{{Key: "where", Values: []string{"AND odd_id = ?"}}}}
			x.Tags = []model.Tag{good, {Name: "db1", KVs: []model.KV{kv}}}
			if r.P(0.5) {
				good.Name = "db1"
				x.Tags = []model.Tag{good, {Name: "db", KVs: []model.KV{kv}}}
			}
			if r.P(0.3) {
				good.Name = "db2"
				x.Tags = append(x.Tags, good)
			}
		}
		if r.P(0.3) {
			// inherited
			c := &model.Data{File: f, Name: "Odd_Derived", Tags: d.Tags, Extends: []model.Ext{{Data: d, Id: "1"}}}
			d.Tags = nil
			insertDecl(r, f, c)
		}
		out := []mark{x}
		for i := range x.Tags {
			out = append(out, &x.Tags[i])
		}
		return out
	}},
	{"missing import", func(r *model.Rng, s *model.Schema) []mark {
		f := model.Pick(r, s.Files)
		f.RawImports = append(f.RawImports, model.Pick(r, []string{"nowhere.hbuf", "sub/nowhere.hbuf", "../nowhere.hbuf", "nodir/x.hbuf", "emptydir"}))
		return []mark{model.ImportKey{F: f, I: len(f.Imports) + len(f.RawImports) - 1}}
	}},
	{"syntax error", func(r *model.Rng, s *model.Schema) []mark {
		f := model.Pick(r, s.Files)
		src := f.Render(&model.Style{})
		toks := regexp.MustCompile("`[^`]*`|\"[^\"\n]*\"|//[^\n]*|[A-Za-z_0-9]+|[^\\sA-Za-z_0-9]").FindAllStringIndex(src, -1)
		for try := 0; try < 20 && len(toks) > 0; try++ {
			t := model.Pick(r, toks)
			var m string
			switch r.Intn(3) {
			case 0:
				m = src[:t[0]] + src[t[1]:]
			case 1:
				m = src[:t[0]] + src[t[0]:t[1]] + " " + src[t[0]:]
			default:
				m = src[:t[0]] + model.Pick(r, []string{"@", "{", "}", "]", "=", "server", "#", "\"", "/*", "?", "12"}) + src[t[1]:]
			}
			if v, _ := refparse.Parse([]byte(m)); v == refparse.Reject {
				f.Raw = m
				return []mark{f}
			}
		}
		return nil
	}},
}

// fine adds to kv, the formats of a member declared in file, one that asks nothing.
func fine(r *model.Rng, file *model.File, kv *model.KV) {
	e := &model.Enum{File: file, Name: "Fine_Code", Items: []*model.Item{{Name: "fine", Id: "1", Value: 1}}}
	insertDecl(r, file, e)
	kv.Values = slices.Insert(kv.Values, r.Intn(len(kv.Values)+1), "Fine_Code.fine")
}

var diagRe = regexp.MustCompile(`(/[^\s:"]+):(\d+):(\d+): `)

// marked gives the places (absolute file name and line; line 0: any) of marks.
func marked(s *model.Schema, dir string, ms []mark) (sources map[string]string, want map[string]bool) {
	sources, want = map[string]string{}, map[string]bool{}
	for _, f := range s.Files {
		lines := map[any]int{}
		sources[f.Path] = f.Render(&model.Style{Lines: lines})
		for _, m := range ms {
			if m == mark(f) {
				want[fmt.Sprintf("%s/%s:*", dir, f.Path)] = true
			}
			if l, ok := lines[m]; ok {
				want[fmt.Sprintf("%s/%s:%d", dir, f.Path, l)] = true
			}
		}
	}
	return
}

func fileOfMark(s *model.Schema, ms []mark) (out []*model.File) {
	for _, f := range s.Files {
		lines := map[any]int{}
		f.Render(&model.Style{Lines: lines})
		for _, m := range ms {
			if _, ok := lines[m]; ok || m == mark(f) {
				out = append(out, f)
				break
			}
		}
	}
	return
}

func sortedKeys[V any](m map[string]V) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func c07() {
	r := report.New("C07", "one defect of one of the listed kinds planted at a random place of a random valid schema set, compiled for a random target through a pattern or a file that reaches it; every case is non-trivial")
	bin := cli.Build(r)
	dl := r.Budget(60*time.Second, 10*time.Minute)
	o := model.Opts{Files: 4, Decls: 6, Servers: true, Subdirs: true, Docs: true, HexIds: true}
	cli.Parallel(12, r.N(30000, 400000), dl, func(i int) {
		rng := model.NewRng(r.Seed*7_000_003 + int64(i))
		var s *model.Schema
		var ms []mark
		var d defect
		for ms == nil {
			s = model.GenSchema(rng, o)
			if rng.P(0.3) {
				model.AddTags(rng, s)
			}
			d = defects[i%len(defects)]
			ms = d.f(rng, s)
		}
		dir := cli.Dir()
		defer cli.Drop(dir)
		src, want := marked(s, dir+"/in", ms)
		if len(want) == 0 {
			panic("defect without a place: " + d.name)
		}
		cli.Write(dir+"/in", src)
		os.MkdirAll(dir+"/in/emptydir", 0o755)
		os.MkdirAll(dir+"/in/sub/emptydir", 0o755)
		pat := "*.hbuf"
		if rng.P(0.5) {
			bad := fileOfMark(s, ms)
			var able []*model.File
			for _, f := range s.Files {
				in := map[*model.File]bool{}
				for _, g := range closure(f) {
					in[g] = true
				}
				ok := true
				for _, b := range bad {
					ok = ok && in[b]
				}
				if ok {
					able = append(able, f)
				}
			}
			if len(able) > 0 {
				pat = path.Base(model.Pick(rng, able).Path)
			}
		}
		t := model.Pick(rng, targets)
		x := cli.Gen(bin, dir+"/in/"+pat, dir+"/out", t, "")
		r.Case(cli.Hash(src, t, pat), true)
		r.Count("defect: "+d.name, 1)
		replay := "hbuf -i in/" + pat + " -o out -t " + t + "\n\n" + cli.Show(src)
		switch m := diagRe.FindStringSubmatch(x.Out); {
		case x.Crashed():
			r.Violation("crash "+d.name, fmt.Sprintf("%s: the command crashed:\n%s", d.name, x.Out), replay)
		case x.Code == 0:
			r.Violation("accepted "+d.name, fmt.Sprintf("%s: exit status 0, output %q", d.name, x.Out), replay)
		case m == nil:
			r.Violation("no position "+d.name, fmt.Sprintf("%s: the diagnostic names no file and line: %q", d.name, x.Out), replay)
		case !want[m[1]+":"+m[2]] && !want[m[1]+":*"]:
			r.Violation("place "+d.name, fmt.Sprintf("%s: the diagnostic %q is not at one of %v", d.name, x.Out, sortedKeys(want)), replay)
		default:
			r.Seen("diagnostics", strings.TrimSpace(regexp.MustCompile(`: [^:]*$`).ReplaceAllString(x.Out[strings.Index(x.Out, m[0])+len(m[0]):], "")))
		}
		if left := cli.Tree(dir + "/out"); len(left) > 0 {
			r.Violation("output "+d.name, fmt.Sprintf("%s: files were written: %v", d.name, cli.Names(left)), replay)
		}
		if i < 3 {
			r.Sample(map[string]any{"defect": d.name, "diagnostic": x.Out, "sources": src})
		}
	})
	r.Finish()
}

func c08() {
	r := report.New("C08", "a random valid or defective schema set compiled several times from different directories, with different spellings of the paths and into empty and used output directories, trees and diagnostics compared byte for byte; non-trivial: at least two files or a defective set")
	bin := cli.Build(r)
	dl := r.Budget(60*time.Second, 10*time.Minute)
	cli.Parallel(12, r.N(5000, 60000), dl, func(i int) {
		rng := model.NewRng(r.Seed*9_000_011 + int64(i))
		o := docsOn
		o.NoPkg = false
		if i%20 >= 16 {
			o.Files = 12 // enough for a map of them to come in another order
		}
		s := model.GenSchema(rng, o)
		if rng.P(0.5) {
			model.AddTags(rng, s)
		}
		if rng.P(0.6) {
			model.AddDomainTags(rng, s, model.DomainAny)
		}
		bad := i%4 == 3
		if bad {
			for k := 0; k < 3; k++ {
				d := model.Pick(rng, defects)
				if d.name != "syntax error" || rng.P(0.2) {
					d.f(rng, s)
				}
			}
		}
		src, _ := marked(s, "", nil)
		t := targets[(i/4)%4]
		var first map[string]string
		firstOut, firstCode := "", 0
		dir := cli.Dir()
		defer cli.Drop(dir)
		r.Case(cli.Hash(src, t), bad || len(s.Files) > 1)
		for k := 0; k < 5; k++ {
			d := filepath.Join(dir, []string{"a", "some/deep er/dir", "b", "z9", "a"}[k])
			cli.Write(d+"/in", src)
			out := filepath.Join(d, "out"+strconv.Itoa(k))
			in, cwd := d+"/in/*.hbuf", ""
			switch k {
			case 1:
				in, cwd = "in/*.hbuf", d
			case 2: // an output directory with old, longer contents
				for n, c := range first {
					cli.Write(out, map[string]string{n: c + "\n// old\n" + c})
				}
			case 3:
				in, cwd = "../in/../in/./*.hbuf", d+"/in"
			case 4:
				time.Sleep(time.Duration(rng.Intn(3)) * time.Millisecond)
			}
			x := cli.Hbuf(bin, cwd, "-i", in, "-o", out, "-t", t, "-p", "gen/")
			got := cli.Tree(out)
			msg := strings.ReplaceAll(strings.ReplaceAll(x.Out, d+"/in/", ""), d+"/", "../")
			r.Count("runs", 1)
			if k == 0 {
				first, firstOut, firstCode = got, msg, x.Code
				if x.Crashed() {
					r.Violation("crash", "the command crashed:\n"+x.Out, cli.Show(src))
					return
				}
				continue
			}
			replay := fmt.Sprintf("run %d: hbuf -i %s -o %s -t %s -p gen/\n\n%s", k, in, out, t, cli.Show(src))
			if firstCode == 0 {
				if df := cli.DiffTree(first, got); df != "" {
					r.Violation("output "+t, fmt.Sprintf("run %d differs from the first: %s", k, df), replay)
				}
				r.Count("trees compared", 1)
			} else {
				r.Count("diagnostics compared", 1)
			}
			if msg != firstOut || x.Code != firstCode {
				r.Violation("diagnostic", fmt.Sprintf("run %d: exit status %d, %q; the first run: %d, %q", k, x.Code, msg, firstCode, firstOut), replay)
			}
		}
		if i < 2 {
			r.Sample(map[string]any{"target": t, "files": cli.Names(first), "diagnostic": firstOut})
		}
	})
	r.Finish()
}

// glob is the reference meaning of a pattern.
func glob(p, s string) bool {
	if p == "" {
		return s == ""
	}
	if p[0] == '*' {
		for i := 0; i <= len(s); i++ {
			if glob(p[1:], s[i:]) {
				return true
			}
		}
		return false
	}
	return s != "" && s[0] == p[0] && glob(p[1:], s[1:])
}

func c09() {
	r := report.New("C09", "a random directory tree of small schemas with confusable names (dots, dashes, regular expression characters, doubled suffixes), some broken, some importing others, compiled with random patterns under several spellings of the path and current directories; non-trivial: the pattern selects some but not all of the files")
	bin := cli.Build(r)
	dl := r.Budget(60*time.Second, 10*time.Minute)
	stems := []string{"a", "ab", "abc", "b", "a.b", "a-b", "a+b", "a(b)", "axb", "aab", "hbuf", "xhbuf", "a[b]", "a$", "^a", "ba", "a b", "bab", "ahbuf", "a.hbuf", "{2}", "é", "A"}
	cli.Parallel(12, r.N(10000, 120000), dl, func(i int) {
		rng := model.NewRng(r.Seed*11_000_027 + int64(i))
		type ent struct {
			dir, name string
			n         int
			imports   []int
			broken    bool
		}
		dirs := []string{"", "", "sub/", "sub/x.hbuf/", "other/", "a/"}
		var es []*ent
		target := model.Pick(rng, []string{"ts", "ts", "ts", "go", "go", "dart"})
		clashes := rng.P(0.15) // let outputs have one name
		if clashes {
			target = model.Pick(rng, []string{"ts", "go", "dart", "java"})
		}
		toGo := target == "go"
		used := map[string]bool{}
		for k, n := 0, rng.Range(2, 9); k < n; k++ {
			e := &ent{dir: model.Pick(rng, dirs), n: k}
			st := model.Pick(rng, stems)
			e.name = st + model.Pick(rng, []string{".hbuf", ".hbuf", ".hbuf", ".hbuf", "hbuf", ".hbuf.bak", ".hbu", ".txt", ""})
			b := strings.TrimSuffix(e.name, ".hbuf")
			gp := e.dir
			if !toGo {
				gp = "" // the output has one directory for all, so names must differ
			}
			st, b = gp+st, gp+b
			if clashes {
				if len(es) > 0 && rng.P(0.5) {
					e.name = es[rng.Intn(len(es))].name
					if rng.P(0.3) {
						q := []rune(e.name)
						if u := unicode.ToUpper(q[0]); u != q[0] {
							q[0] = u
						} else {
							q[0] = unicode.ToLower(q[0])
						}
						e.name = string(q)
					}
				}
				st, b = e.dir+e.name, e.dir+e.name
			}
			if used[st] || used[b] || e.name == "a" || e.name == "sub" || e.name == "other" {
				continue
			}
			used[st], used[b] = true, true
			es = append(es, e)
		}
		if len(es) == 0 {
			return
		}
		for k, e := range es {
			e.n = k
			for j := range es {
				if j != k && rng.P(0.2) && !strings.ContainsAny(es[j].name, "()[]$^ {}") {
					e.imports = append(e.imports, j)
				}
			}
			e.broken = rng.P(0.15)
		}
		// patterns
		pat := ""
		switch rng.Intn(6) {
		case 0:
			pat = "*.hbuf"
		case 1, 2:
			pat = model.Pick(rng, es).name
		case 3:
			n := []rune(model.Pick(rng, es).name)
			k := rng.Intn(len(n) + 1)
			pat = string(n[:k]) + "*" + string(n[min(len(n), k+rng.Intn(3)):])
		case 4:
			pat = model.Pick(rng, stems) + "*.hbuf"
		default:
			pat = "*" + model.Pick(rng, []string{"b", ".", "a", "hbuf", ""}) + "*" + model.Pick(rng, []string{"hbuf", ".hbuf", "f", ""})
		}
		sub := model.Pick(rng, []string{"", "", "sub/"})
		sel := map[int]bool{}
		var add func(k int)
		add = func(k int) {
			if !sel[k] {
				sel[k] = true
				if !es[k].broken {
					for _, j := range es[k].imports {
						add(j)
					}
				}
			}
		}
		for k, e := range es {
			if strings.HasPrefix(e.dir, sub) && glob(pat, e.name) {
				add(k)
			}
		}
		src := map[string]string{}
		anyBroken := false
		outs, clash := map[string]int{}, map[string]bool{}
		want := map[string]bool{}
		dir := cli.Dir()
		defer cli.Drop(dir)
		root := dir + "/root"
		for k, e := range es {
			pk := e.n
			if clashes {
				pk %= 2
			}
			t := fmt.Sprintf("package go = \"g%d\"\npackage java = \"j\"\n", pk)
			uses := ""
			for _, j := range e.imports {
				to := es[j].dir + es[j].name
				rp, _ := filepath.Rel("/"+e.dir, "/"+to)
				switch rng.Intn(9) {
				case 0:
					rp = "./" + rp
				case 1:
					rp = "../" + path.Base(root+"/"+e.dir) + "/" + rp
				case 2:
					rp = ".//" + rp
				case 3:
					rp = root + "/" + to
				case 4:
					rp = root + "/deep/..//" + to
				case 5:
					rp = root + "/./" + e.dir + rp
				}
				t += "import \"" + rp + "\"\n"
				uses += fmt.Sprintf("    File%d f%d = %d\n", es[j].n, es[j].n, 2+j)
			}
			t += fmt.Sprintf("\ndata File%d {\n    int32 x%d = 1\n%s}\n", e.n, e.n, uses)
			if e.broken {
				t += "data {{{\n"
			}
			src[e.dir+e.name] = t
			if sel[k] {
				w := strings.TrimSuffix(e.name, ".hbuf")
				switch target {
				case "go":
					w = fmt.Sprintf("g%d/%s.data.go", pk, w)
				case "java":
					q := []rune(w)
					q[0] = unicode.ToUpper(q[0])
					w = string(q)
					want[w+"Enum.java"], want[w+"Server.java"] = true, true
					w += "Data.java"
				default:
					w += ".data." + target
				}
				want[w] = true
				if j, ok := outs[w]; ok {
					clash[es[j].dir+es[j].name], clash[e.dir+e.name] = true, true
				}
				outs[w] = k
				anyBroken = anyBroken || e.broken
			}
		}
		cli.Write(root, src)
		os.MkdirAll(root+"/sub", 0o755)
		os.MkdirAll(root+"/deep/er", 0o755)
		r.Case(cli.Hash(src, pat, sub), len(sel) > 0 && len(sel) < len(es))
		r.Count("files offered", int64(len(es)))
		r.Count("files selected", int64(len(sel)))
		r.Seen("targets", target)
		type how struct{ in, cwd string }
		hows := []how{{root + "/" + sub + pat, ""}, {sub + pat, root}, {"./" + sub + pat, root}, {root + "/deep/../" + sub + "./" + pat, "/"},
			{"../../" + sub + pat, root + "/deep/er"}, {root + "//" + sub + "/" + pat, dir}}
		if sub != "" {
			hows = append(hows, how{pat, root + "/sub"}, how{"../sub/" + pat, root + "/sub"})
		}
		var first map[string]string
		for k, h := range hows {
			if k > 0 && rng.P(0.4) {
				continue
			}
			if k > 0 && rng.P(0.5) {
				// something unrelated appears; never a name the pattern matches
				for _, n := range []string{"unrelated.md", "zz", "sub/q.hbufx", "Makefile"} {
					if !glob(pat, path.Base(n)) && src[n] == "" {
						cli.Write(root, map[string]string{n: "{{ garbage"})
					}
				}
			}
			out := dir + "/out" + strconv.Itoa(k)
			x := cli.Hbuf(bin, h.cwd, "-i", h.in, "-o", out, "-t", target)
			r.Count("runs", 1)
			r.Seen("spellings", strconv.Itoa(k))
			got := cli.Tree(out)
			replay := fmt.Sprintf("cd %s; hbuf -i %q -o %s -t %s\nselected: %v\n\n%s", h.cwd, h.in, out, target, sortedKeys(want), cli.Show(src))
			if x.Crashed() {
				r.Violation("crash", "the command crashed:\n"+x.Out, replay)
				continue
			}
			if anyBroken || len(sel) == 0 {
				if x.Code == 0 {
					r.Violation("accepted", fmt.Sprintf("exit status 0 although the selection %v is empty or has a broken file", sortedKeys(want)), replay)
				}
				continue
			}
			if len(clash) > 0 {
				// nothing may be lost: all of it is there, or none and the reason said
				r.Count("runs with outputs of one name", 1)
				if x.Code == 0 {
					all := ""
					for _, t := range got {
						all += t
					}
					for k := range sel {
						if !regexp.MustCompile(fmt.Sprintf(`(?i)\bx%d\b`, k)).MatchString(all) {
							r.Violation("lost", fmt.Sprintf("exit status 0, but the output of %s is not there, only %v", es[k].dir+es[k].name, cli.Names(got)), replay)
						}
					}
					continue
				}
				if len(got) > 0 {
					r.Violation("partial", fmt.Sprintf("exit status %d, but %v were written", x.Code, cli.Names(got)), replay)
				}
				named := false
				for n := range clash {
					named = named || strings.Contains(x.Out, n+":")
				}
				if !named {
					r.Violation("unnamed", fmt.Sprintf("exit status %d, and none of %v is named: %s", x.Code, sortedKeys(clash), x.Out), replay)
				}
				continue
			}
			if x.Code != 0 {
				r.Violation("rejected", fmt.Sprintf("exit status %d: %s", x.Code, x.Out), replay)
				continue
			}
			have := map[string]bool{}
			for n := range got {
				have[n] = true
			}
			if a, b := fmt.Sprint(sortedKeys(have)), fmt.Sprint(sortedKeys(want)); a != b {
				r.Violation("selection", fmt.Sprintf("pattern %q wrote %s, want %s", h.in, a, b), replay)
				continue
			}
			if first == nil {
				first = got
			} else if df := cli.DiffTree(first, got); df != "" {
				r.Violation("spelling", fmt.Sprintf("spelling %q changes the output: %s", h.in, df), replay)
			}
		}
		if i < 3 {
			r.Sample(map[string]any{"pattern": sub + pat, "files": cli.Names(src), "selected": sortedKeys(want)})
		}
	})
	r.Finish()
}

type stat struct {
	mode  os.FileMode
	mtime int64
	data  string
}

func snapshot(dir string) map[string]stat {
	m := map[string]stat{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		s := stat{mode: i.Mode()}
		if !i.IsDir() {
			b, _ := os.ReadFile(p)
			s.data, s.mtime = string(b), i.ModTime().UnixNano()
		}
		m[p] = s
		return nil
	})
	return m
}

var straceRe = regexp.MustCompile(`^(?:\d+ +)?(openat|open|creat|mkdir|mkdirat|unlink|unlinkat|rename|renameat|renameat2|truncate|rmdir|link|linkat|symlink|symlinkat|chmod|fchmodat|chown|fchownat|utimensat|mknod|mknodat)\((.*)\) += +(-?\d+|\?)`)
var quotedRe = regexp.MustCompile(`"((?:[^"\\]|\\.)*)"`)

func c10() {
	r := report.New("C10", "a random valid, defective or unwritable run inside a scratch tree with bystander files; a snapshot of everything (content, mode, modification time) before and after, and for part of the runs the system-call log, are checked: only files below the output directory that belong to the compiled schemas may change; non-trivial: the run wrote something or failed on a defect")
	bin := cli.Build(r)
	dl := r.Budget(60*time.Second, 10*time.Minute)
	cli.Parallel(12, r.N(8000, 60000), dl, func(i int) {
		rng := model.NewRng(r.Seed*13_000_027 + int64(i))
		s := model.GenSchema(rng, docsOn)
		if rng.P(0.6) {
			model.AddDomainTags(rng, s, model.DomainAny)
		}
		bad := i%4 == 3
		if bad {
			model.Pick(rng, defects).f(rng, s)
		}
		src, _ := marked(s, "", nil)
		t := targets[(i/4)%4]
		dir := cli.Dir()
		defer cli.Drop(dir)
		root := dir + "/w/schemas"
		cli.Write(root, src)
		pat, sel := pickInput(rng, s)
		cli.Write(dir+"/w", map[string]string{"note.txt": "n", "other/alpha.data.ts": "keep", "alpha.data.go": "keep", "schemas/alpha.data.ts.bak": "keep", "schemas/readme.md": "keep"})
		where := rng.Intn(6)
		out, cwd := dir+"/w/out", dir+"/w/other"
		switch where {
		case 0:
			out = root // next to the schemas
		case 1:
			out = "../out/deep/er"
		case 2:
			out = "."
		case 3:
			out = dir + "/w/note.txt" // a file: cannot be written
		case 4:
			cli.Write(out, map[string]string{"keep.txt": "keep", "zz.data.ts": "keep", "alpha.data.ts.orig": "keep", "pk/keep.go": "package keep"})
		}
		abs := out
		if !filepath.IsAbs(abs) {
			abs = filepath.Join(cwd, out)
		}
		in := root + "/" + pat
		if rng.P(0.3) {
			in = "../schemas/" + pat
		}
		if where != 3 && rng.P(0.5) {
			// an earlier run, of this or another target, has already written there
			cli.Hbuf(bin, cwd, "-i", in, "-o", out, "-t", model.Pick(rng, []string{t, t, targets[rng.Intn(4)]}), "-p", "gen/")
			r.Count("runs into the output of an earlier run", 1)
			if rng.P(0.5) {
				// of another version of the schemas
				for p, text := range cli.Tree(abs) {
					if belongs(p, t, sel) && rng.P(0.7) {
						os.WriteFile(filepath.Join(abs, p), []byte("// older\n"+text+"\n// older\n"), 0o644)
					}
				}
			}
		}
		before := snapshot(dir)
		log := ""
		var x cli.Result
		args := []string{"-i", in, "-o", out, "-t", t, "-p", "gen/"}
		unusable := i%20 == 2
		if unusable {
			switch k := rng.Intn(9); k {
			case 0, 1, 2:
				args = append(args[:2*k:2*k], args[2*k+2:]...)
			case 3, 4, 5:
				args[2*(k-3)+1] = ""
			case 6:
				args[5] = model.Pick(rng, []string{"golang", "Go", "typescript", "js", "all", "go,ts", " ", "*"})
			case 7:
				args[1] = path.Dir(in) + "/" + model.Pick(rng, []string{"nowhere.hbuf", "nowhere*.hbuf", "*.hbuff", "readme.md.hbuf"})
			default:
				args[1] = path.Dir(in) + "/nowhere/*.hbuf"
			}
			r.Count("runs with unusable options", 1)
		}
		if i%10 == 5 {
			log = os.TempDir() + "/strace" + strconv.Itoa(i)
			x = cli.Exec(60*time.Second, cwd, nil, "strace", append([]string{"-f", "-qq", "-s", "4096", "-e", "trace=file", "-o", log, bin}, args...)...)
		} else {
			x = cli.Hbuf(bin, cwd, args...)
		}
		after := snapshot(dir)
		replay := fmt.Sprintf("cd %s; hbuf -i %s -o %s -t %s -p gen/\nexit %d %s\n\n%s", cwd, in, out, t, x.Code, x.Out, cli.Show(src))
		wrote := 0
		allowed := func(p string) bool {
			rel, err := filepath.Rel(abs, p)
			return err == nil && rel != ".." && !strings.HasPrefix(rel, "../") && belongs(filepath.ToSlash(rel), t, sel)
		}
		for p, a := range after {
			b, ok := before[p]
			if ok && a == b {
				continue
			}
			if a.mode.IsDir() {
				if !ok && (p == abs || strings.HasPrefix(p, abs+"/") || strings.HasPrefix(abs, p+"/")) {
					continue
				}
				r.Violation("directory", fmt.Sprintf("directory %s was created or changed mode", p), replay)
				continue
			}
			wrote++
			if x.Code != 0 && where != 3 {
				r.Violation("failed-run-writes", fmt.Sprintf("a failed run wrote %s", p), replay)
			} else if !allowed(p) {
				r.Violation("outside", fmt.Sprintf("%s was created or changed; output directory %s", p, abs), replay)
			}
		}
		for p := range before {
			if _, ok := after[p]; !ok {
				r.Violation("removed", p+" was removed", replay)
			}
		}
		if where == 3 && x.Code == 0 && wrote == 0 && len(sel) > 0 {
			n := 0
			for _, f := range sel {
				n += len(wantFiles(f, t))
			}
			if n > 0 {
				r.Violation("silent", "the output directory cannot be written, yet the command succeeds", replay)
			}
		}
		if x.Crashed() {
			r.Violation("crash", "the command crashed:\n"+x.Out, replay)
		}
		if unusable && x.Code == 0 {
			r.Violation("unusable options", fmt.Sprintf("the command succeeds with the arguments %q", args), replay)
		}
		if unusable && wrote > 0 {
			r.Violation("unusable options", fmt.Sprintf("the command writes files with the arguments %q", args), replay)
		}
		r.Count("paths compared", int64(len(after)))
		r.Count("files written", int64(wrote))
		r.Seen("output places", strconv.Itoa(where))
		r.Case(cli.Hash(src, t, in, out), wrote > 0 || x.Code != 0)
		if log != "" {
			b, _ := os.ReadFile(log)
			os.Remove(log)
			seen := 0
			for _, l := range strings.Split(string(b), "\n") {
				m := straceRe.FindStringSubmatch(l)
				if m == nil {
					continue
				}
				seen++
				if (m[1] == "openat" || m[1] == "open") && !regexp.MustCompile(`O_WRONLY|O_RDWR|O_CREAT|O_TRUNC|O_APPEND`).MatchString(m[2]) {
					continue
				}
				for _, q := range quotedRe.FindAllStringSubmatch(m[2], -1) {
					p := q[1]
					if !filepath.IsAbs(p) {
						p = filepath.Join(cwd, p)
					}
					p = filepath.Clean(p)
					r.Count("modifying system calls", 1)
					if strings.HasPrefix(m[1], "mkdir") && (p == abs || strings.HasPrefix(p, abs+"/") || strings.HasPrefix(abs, p+"/")) || allowed(p) || p == abs || p == "/dev/null" {
						continue
					}
					if where == 3 && strings.HasPrefix(p, abs) {
						continue
					}
					r.Violation("syscall", fmt.Sprintf("the run made the modifying call %s", l), replay)
				}
			}
			r.Count("system calls seen", int64(seen))
			if seen > 0 {
				r.Count("runs traced", 1)
			} else {
				r.Count("runs that could not be traced", 1)
			}
		}
		if i < 2 {
			r.Sample(map[string]any{"target": t, "out": out, "exit": x.Code, "written": wrote})
		}
	})
	r.Finish()
}
