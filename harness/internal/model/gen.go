package model

import (
	"fmt"
	"slices"
	"strconv"
	"strings"
)

// Opts bounds a generated schema.
type Opts struct {
	Files       int  // at most
	Decls       int  // at most, per file
	Servers     bool // include servers
	Subdirs     bool // put files in directories
	Packages    bool // different Go packages per file
	DotPkg      bool // Go packages of several parts
	NoPkg       bool // some files carry no Go package (only sensible without Go)
	Docs        bool
	DeepNull    bool
	TypeCase    bool // type names in every accepted spelling, not only Hump
	Override    bool // children may redeclare an inherited field with the same type
	Bases       []string
	MapKeys     []string
	NoMaps      bool
	NoZero      bool // enums need not have an item with id 0
	HexIds      bool
	JavaPkgs    bool // files may have different Java packages
	Mutual      bool // earlier files may import later ones
	EmptyEnum   bool // enums may have no items
	MoreServers bool
	MoreEnums   bool
	MoreInherit bool // deeper and wider inheritance
	Diamond     bool // in part of the schemas a type may reach the same base in several ways
}

var typeWords = []string{"Account", "Order", "Item", "User", "Report", "Ledger", "Ticket", "Gadget", "Parcel", "Route", "Vessel", "Carrier", "Invoice", "Branch", "Device", "Sensor", "Tariff", "Claim", "Policy", "Asset", "Queue", "Shift", "Badge", "Crew", "Depot"}
var typeWords2 = []string{"", "", "Info", "Req", "Reps", "Row", "Log", "Meta", "Detail", "V2", "Ext", "Page", "DB", "ID"}
var fieldWords = []string{"amount", "label", "size", "flag", "owner", "score", "note", "start", "finish", "region", "weight", "height", "level", "phase", "code", "rank", "price", "total", "origin", "target", "depth", "width", "color", "grade", "shade", "mode2", "x", "y", "zone", "area"}
var fieldWords2 = []string{"", "", "", "No", "At", "Of", "Ref", "URL", "Id", "2", "Max", "A"}
var itemWords = []string{"open", "closed", "pending", "failed", "done", "paused", "lost", "found", "hot", "cold", "mild", "north", "south", "east", "west", "up", "down"}
var serverWords = []string{"Auth", "Billing", "Search", "Mail", "Stock", "Audit", "Chat", "Media", "Graph", "Clock", "Quota", "Vault"}
var methodWords = []string{"fetch", "submit", "cancel", "refresh", "assign", "close", "reopen", "merge", "split", "query", "notify", "rotate", "verifyAll", "ping"}

type Gen struct {
	R        *Rng
	O        Opts
	extended map[*Server]bool // servers others inherit from
	types    map[string]bool  // normalised type names, schema-wide
	n        int
}

func norm(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }

func capWord(s string) string { return strings.ToUpper(s[:1]) + s[1:] }

// TypeName gives a type name whose normal form was not used before.
func (g *Gen) TypeName(a []string, b []string) string {
	r := g.R
	for i := 0; ; i++ {
		w, w2 := Pick(r, a), Pick(r, b)
		n := ""
		style := 0
		if g.O.TypeCase {
			style = r.Intn(6)
		}
		switch style {
		case 1:
			n = strings.ToLower(w) // lower
			if w2 != "" {
				n += "_" + strings.ToLower(w2)
			}
		case 2:
			n = strings.ToLower(w[:1]) + w[1:] + w2
		case 3:
			n = w
			if w2 != "" {
				n += "_" + w2
			}
		default:
			n = w + w2
		}
		if i > 20 {
			n += strconv.Itoa(i)
		}
		if !g.types[norm(n)] {
			g.types[norm(n)] = true
			return n
		}
	}
}

// FieldName gives a member name distinct, in every derived form, from used.
func (g *Gen) FieldName(a, b []string, used map[string]bool) string {
	r := g.R
	for i := 0; ; i++ {
		w, w2 := Pick(r, a), Pick(r, b)
		n := ""
		switch r.Intn(7) {
		case 0:
			n = w
			if w2 != "" {
				n += "_" + strings.ToLower(w2)
			}
		case 1:
			n = w
			if w2 != "" {
				n += "_" + w2
			}
		case 2:
			n = capWord(w) + w2
		case 3:
			n = strings.ToUpper(w)
			if w2 != "" && w2[0] > '9' {
				n += "_" + strings.ToUpper(w2)
			}
		default:
			n = w + w2
		}
		if i > 20 {
			n += strconv.Itoa(i)
		}
		if !used[norm(n)] {
			used[norm(n)] = true
			return n
		}
	}
}

func (g *Gen) doc() []string {
	if !g.O.Docs || g.R.P(0.5) {
		return nil
	}
	pool := []string{"the thing", "note: keep in sync", "价格 of it", "a 'quoted' \"word\"", "ends with star *", "50% of $x", "path/to\\file", "<b>markup</b>", "x",
		"C:\\users\\u0 and \\\\uu", "line\u2028break", "paragraph\u2029break", "next\u0085line", "form\ffeed and\vtab", "return\rcarriage",
		"/* a block */", "/* two\n lines */", "/*\r\n * starred\r\n *\r\n\r\n * text\r\n */", "/* lone\rreturn */", "/**/", "", "{@code x} */", "-->"}
	out := []string{Pick(g.R, pool)}
	for g.R.P(0.25) {
		out = append(out, Pick(g.R, pool))
	}
	return out
}

// GenSchema makes a random valid schema.
func GenSchema(r *Rng, o Opts) *Schema {
	if o.Bases == nil {
		o.Bases = BaseTypes
	}
	if o.MapKeys == nil {
		o.MapKeys = MapKeyBases
	}
	if o.Diamond {
		o.Diamond = r.P(0.4)
	}
	g := &Gen{R: r, O: o, types: map[string]bool{}}
	s := &Schema{}
	nf := r.Range(1, o.Files)
	names := []string{"alpha", "beta", "gamma", "delta", "epsilon", "common", "main_page", "user2"}
	if o.Files > len(names) {
		names = append(names, "eta", "theta", "iota2", "kappa_x")
	}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	// Go packages: never an import cycle, since files only import earlier ones and
	// packages are given to runs of consecutive files.
	pkg := "pk" + strconv.Itoa(r.Intn(90))
	for i := 0; i < nf; i++ {
		f := &File{Path: names[i] + ".hbuf"}
		if o.Subdirs && r.P(0.5) {
			f.Path = Pick(r, []string{"sub/", "sub/deep/", "other/"}) + f.Path
		}
		if o.Packages && i > 0 && r.P(0.6) {
			pkg = pkg + string(rune('a'+i))
			if o.DotPkg && r.P(0.4) {
				pkg = Pick(r, []string{"app.", "x.y.", "app.core."}) + pkg[strings.LastIndex(pkg, ".")+1:]
			}
		}
		f.GoPkg = pkg
		if o.NoPkg && r.P(0.5) {
			f.GoPkg = ""
		}
		f.JavaPkg = "com.x"
		if o.JavaPkgs && i > 0 {
			f.JavaPkg = s.Files[i-1].JavaPkg
			if r.P(0.5) {
				f.JavaPkg = Pick(r, []string{"com.x", "com.x.y", "org.z", "w"})
			}
		}
		// import a random subset of the earlier files
		for _, e := range s.Files {
			if r.P(0.7) {
				f.Imports = append(f.Imports, e)
			}
		}
		s.Files = append(s.Files, f)
		g.fill(s, f)
	}
	if o.Mutual && len(s.Files) > 1 && r.P(0.3) {
		g.mutual(s)
	}
	return s
}

// mutual makes an earlier file import a later one of the same package and use it.
func (g *Gen) mutual(s *Schema) {
	r := g.R
	i := r.Intn(len(s.Files) - 1)
	a, b := s.Files[i], s.Files[r.Range(i+1, len(s.Files)-1)]
	if a.GoPkg != b.GoPkg {
		return
	}
	a.Imports = append(a.Imports, b)
	var as, bs []*Data
	for _, d := range a.Decls {
		if x, ok := d.(*Data); ok {
			as = append(as, x)
		}
	}
	for _, d := range b.Decls {
		if x, ok := d.(*Data); ok {
			bs = append(bs, x)
		}
	}
	if len(as) == 0 || len(bs) == 0 {
		return
	}
	d := Pick(r, as)
	d.Fields = append(d.Fields, &Field{Type: Type{Elem: Ref{Kind: KData, Data: Pick(r, bs), Null: true}}, Name: "crossRef" + strconv.Itoa(i), Id: "200"})
}

func (g *Gen) visible(f *File) (es []*Enum, ds []*Data, ss []*Server) {
	add := func(x *File) {
		for _, d := range x.Decls {
			switch v := d.(type) {
			case *Enum:
				es = append(es, v)
			case *Data:
				ds = append(ds, v)
			case *Server:
				ss = append(ss, v)
			}
		}
	}
	add(f)
	for _, i := range f.Imports {
		add(i)
	}
	return
}

// usable says whether f may name every type of t.
func (g *Gen) usable(f *File, t Type) bool {
	es, ds, _ := g.visible(f)
	ok := func(x Ref) bool {
		switch x.Kind {
		case KEnum:
			return slices.Contains(es, x.Enum)
		case KData:
			return slices.Contains(ds, x.Data)
		}
		return true
	}
	return ok(t.Elem) && (t.Cont != Map || ok(t.Key))
}

func (g *Gen) fill(s *Schema, f *File) {
	r := g.R
	n := r.Range(2, g.O.Decls)
	for i := 0; i < n; i++ {
		switch k := r.Intn(10); {
		case k < 3 || i == 0 || g.O.MoreEnums && k < 6:
			f.Decls = append(f.Decls, g.enum(f))
		case k < 8 && !(g.O.MoreServers && k > 5) || !g.O.Servers:
			f.Decls = append(f.Decls, g.data(f))
		default:
			f.Decls = append(f.Decls, g.server(f))
		}
	}
	if _, ds, _ := g.visible(f); len(ds) == 0 {
		f.Decls = append(f.Decls, g.data(f))
	}
	// self and forward references, which need every type to exist
	g.backRefs(f)
	r.Shuffle(len(f.Decls), func(i, j int) { f.Decls[i], f.Decls[j] = f.Decls[j], f.Decls[i] })
}

func (g *Gen) enum(f *File) *Enum {
	r := g.R
	e := &Enum{File: f, Name: g.TypeName(typeWords, []string{"Status", "Kind", "Code", "State", "Type"}), Doc: g.doc()}
	used := map[string]bool{}
	val := 0
	if g.O.NoZero && r.P(0.3) {
		val = r.Range(1, 5)
	}
	lo := 1
	if g.O.EmptyEnum && r.P(0.05) {
		lo = 0
	}
	n := r.Range(1, 6) * lo
	long := g.O.MoreEnums && r.P(0.04)
	if long {
		n = r.Range(20, 150)
	}
	for i := 0; i < n; i++ {
		name := ""
		if long {
			name = Pick(r, itemWords) + strconv.Itoa(i)
		} else {
			name = g.FieldName(itemWords, fieldWords2, used)
		}
		e.Items = append(e.Items, &Item{Name: name, Id: g.id(val), Value: val, Doc: g.doc()})
		val += Pick(r, []int{1, 1, 1, 2, 10, 1000, 70000})
	}
	if k := len(e.Items); k > 0 && r.P(0.05) {
		e.Items[k-1].Value = 1<<31 - 1
		e.Items[k-1].Id = g.id(1<<31 - 1)
	}
	if r.P(0.4) {
		r.Shuffle(len(e.Items), func(i, j int) { e.Items[i], e.Items[j] = e.Items[j], e.Items[i] })
	}
	return e
}

func (g *Gen) ref(f *File, depthData bool) Ref {
	r := g.R
	es, ds, _ := g.visible(f)
	k := r.Intn(10)
	switch {
	case k < 2 && len(es) > 0:
		return Ref{Kind: KEnum, Enum: Pick(r, es)}
	case k < 4 && len(ds) > 0 && depthData:
		return Ref{Kind: KData, Data: Pick(r, ds)}
	}
	return Ref{Kind: KBase, Base: Pick(r, g.O.Bases)}
}

func (g *Gen) typ(f *File) Type {
	r := g.R
	t := Type{Elem: g.ref(f, true)}
	t.Elem.Null = r.P(0.4)
	switch k := r.Intn(10); {
	case k < 2:
		t.Cont = Array
		t.ContNull = r.P(0.5)
	case k < 4 && !g.O.NoMaps:
		t.Cont = Map
		t.ContNull = r.P(0.5)
		es, _, _ := g.visible(f)
		if len(es) > 0 && r.P(0.25) {
			t.Key = Ref{Kind: KEnum, Enum: Pick(r, es)}
		} else {
			t.Key = Ref{Kind: KBase, Base: Pick(r, g.O.MapKeys)}
		}
	}
	return t
}

func (g *Gen) data(f *File) *Data {
	r := g.R
	d := &Data{File: f, Name: g.TypeName(typeWords, typeWords2), Doc: g.doc()}
	used := map[string]bool{}
	_, ds, _ := g.visible(f)
	inherit := 0.35
	if g.O.MoreInherit {
		inherit = 0.75
	}
	from := map[string]*Field{}
	for i := 0; i < 3 && len(ds) > 0 && r.P(inherit); i++ {
		b := Pick(r, ds)
		// no base twice, also not through another one, and no two bases that
		// share a member name
		ok := true
		anc := map[*Data]bool{}
		for _, e := range d.Extends {
			anc[e.Data] = true
			for _, a := range e.Data.Ancestors() {
				anc[a] = true
			}
		}
		if anc[b] && (!g.O.Diamond || slices.ContainsFunc(d.Extends, func(e Ext) bool { return e.Data == b })) {
			ok = false
		}
		for _, a := range b.Ancestors() {
			if anc[a] && !g.O.Diamond {
				ok = false
			}
		}
		for _, fl := range b.AllFields() {
			if used[norm(fl.Name)] && from[fl.Name] != fl {
				ok = false
			}
		}
		// an embedded type and a member must not share a name
		if used[norm(b.Name)] && !anc[b] {
			ok = false
		}
		if !ok {
			continue
		}
		for _, fl := range b.AllFields() {
			used[norm(fl.Name)] = true
			from[fl.Name] = fl
		}
		used[norm(b.Name)] = true
		for _, a := range b.Ancestors() {
			used[norm(a.Name)] = true
		}
		d.Extends = append(d.Extends, Ext{Data: b, Id: g.id(len(d.Extends) + 1)})
	}
	id := r.Intn(3)
	for i, n := 0, r.Range(0, 8); i < n; i++ {
		fl := &Field{Type: g.typ(f), Name: g.FieldName(fieldWords, fieldWords2, used), Id: g.id(id), Doc: g.doc()}
		id += r.Range(1, 4)
		d.Fields = append(d.Fields, fl)
	}
	if g.O.Override && len(d.Extends) > 0 && r.P(0.3) {
		if fs := d.Extends[0].Data.AllFields(); len(fs) > 0 {
			b := Pick(r, fs)
			if g.usable(f, b.Type) {
				d.Fields = append(d.Fields, &Field{Type: b.Type, Name: b.Name, Id: g.id(id)})
				id++
			}
		}
	}
	if len(d.Fields) > 1 && r.P(0.3) {
		r.Shuffle(len(d.Fields), func(i, j int) { d.Fields[i], d.Fields[j] = d.Fields[j], d.Fields[i] })
	}
	return d
}

func (g *Gen) id(n int) string {
	if g.O.HexIds && g.R.P(0.3) {
		return Notation(g.R, int64(n))
	}
	return strconv.Itoa(n)
}

// Notation writes a number in one of the ways the language has.
func Notation(r *Rng, n int64) string {
	s := fmt.Sprintf(Pick(r, []string{"%d", "0x%X", "0X%x", "0x%x", "0b%b", "0B%b", "0o%o", "0O%o", "0%o", "00%o"}), n)
	from := 1
	if len(s) > 1 && strings.ContainsRune("xXbBoO", rune(s[1])) {
		from = 2
	}
	if r.P(0.3) {
		for i := len(s) - 1; i >= from; i-- {
			if r.P(0.3) {
				s = s[:i] + "_" + s[i:]
			}
		}
	}
	return s
}

// backRefs adds nullable self references and references to types declared later.
func (g *Gen) backRefs(f *File) {
	r := g.R
	for _, x := range f.Decls {
		d, ok := x.(*Data)
		if !ok || !r.P(0.2) {
			continue
		}
		used := map[string]bool{}
		for _, fl := range d.AllFields() {
			used[norm(fl.Name)] = true
		}
		for _, a := range d.Ancestors() {
			used[norm(a.Name)] = true
		}
		// a child declared so far may already own the name
		for _, y := range f.Decls {
			if c, ok := y.(*Data); ok {
				for _, a := range c.Ancestors() {
					if a == d {
						for _, fl := range c.AllFields() {
							used[norm(fl.Name)] = true
						}
						used[norm(c.Name)] = true
					}
				}
			}
		}
		_, ds, _ := g.visible(f)
		t := Type{Elem: Ref{Kind: KData, Data: Pick(r, ds), Null: true}}
		switch r.Intn(3) {
		case 1:
			t.Cont, t.ContNull = Array, r.P(0.5)
			t.Elem.Null = r.P(0.5)
		case 2:
			if !g.O.NoMaps {
				t.Cont, t.ContNull, t.Key = Map, r.P(0.5), Ref{Kind: KBase, Base: String}
				t.Elem.Null = r.P(0.5)
			}
		}
		max := 100
		d.Fields = append(d.Fields, &Field{Type: t, Name: g.FieldName([]string{"back", "link", "peer", "nested"}, fieldWords2, used), Id: strconv.Itoa(max)})
	}
}

func (g *Gen) server(f *File) *Server {
	r := g.R
	s := &Server{File: f, Name: g.TypeName(serverWords, []string{"Server", "Service", "Svc", "Api"}), Doc: g.doc()}
	used := map[string]bool{"init": true, "getname": true, "getid": true}
	_, ds, ss := g.visible(f)
	inherit := 0.4
	if g.O.MoreInherit {
		inherit = 0.75
	}
	from := map[string]*Method{}
	for i := 0; i < 2 && len(ss) > 0 && r.P(inherit); i++ {
		b := Pick(r, ss)
		ok := true
		mine := map[*Server]bool{}
		var anc func(x *Server)
		anc = func(x *Server) {
			mine[x] = true
			for _, e := range x.Extends {
				anc(e.Server)
			}
		}
		for _, e := range s.Extends {
			anc(e.Server)
		}
		for _, m := range b.AllMethods() {
			if o := from[m.Name]; used[norm(m.Name)] && !(o != nil && (g.O.Diamond && o == m.Method || g.O.Override && o.Param == m.Param && o.Result == m.Result)) {
				ok = false
			}
		}
		if mine[b] && (!g.O.Diamond || slices.ContainsFunc(s.Extends, func(e Ext) bool { return e.Server == b })) || !ok {
			continue
		}
		for _, m := range b.AllMethods() {
			used[norm(m.Name)] = true
			from[m.Name] = m.Method
		}
		s.Extends = append(s.Extends, Ext{Server: b, Id: g.id(len(s.Extends) + 1)})
	}
	if len(ds) == 0 {
		return s
	}
	for i, n := 0, r.Range(0, 5); i < n; i++ {
		m := &Method{Name: g.FieldName(methodWords, fieldWords2, used), Param: Pick(r, ds), ParamName: Pick(r, []string{"req", "req", "request", "in_data", "arg", "Req"}), Id: g.id(i), Doc: g.doc()}
		if r.P(0.7) {
			m.Result = Pick(r, ds)
		}
		s.Methods = append(s.Methods, m)
	}
	// a method that a base, or another server, has as well
	again := func(b *Server, p float64) {
		ms := b.AllMethods()
		if len(ms) == 0 || !r.P(p) {
			return
		}
		m := Pick(r, ms)
		if o := from[m.Name]; (o == nil) == used[norm(m.Name)] || o != nil && (o.Param != m.Param || o.Result != m.Result) {
			return
		}
		if !slices.Contains(ds, m.Param) || m.Result != nil && !slices.Contains(ds, m.Result) {
			return
		}
		for _, x := range s.Methods {
			if x.Name == m.Name {
				return
			}
		}
		used[norm(m.Name)] = true
		s.Methods = append(s.Methods, &Method{Name: m.Name, Param: m.Param, ParamName: Pick(r, []string{m.ParamName, "req"}), Result: m.Result, Id: g.id(20 + len(s.Methods)), Doc: g.doc()})
	}
	if g.O.Override {
		for _, e := range s.Extends {
			again(e.Server, 0.3)
		}
		if len(ss) > 0 {
			again(Pick(r, ss), 0.3)
		}
	}
	return s
}

var tagNames = []string{"note", "meta", "hint", "owner", "x1", "Audit"}
var tagKeys = []string{"by", "level", "text", "on", "max_len", "Mode"}
var tagVals = []string{"", "a", "ops", "x y", "日本", "100", "a;b", "a=b, c", "[x]", "q\"q", `back\slash`, "// no comment", "multi\nline", "`"}

func (g *Gen) tags() []Tag {
	r := g.R
	var out []Tag
	names := append([]string(nil), tagNames...)
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	for i := 0; i < 3 && r.P(0.35); i++ {
		t := Tag{Name: names[i]}
		keys := append([]string(nil), tagKeys...)
		r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		for k, n := 0, r.Range(1, 3); k < n; k++ {
			kv := KV{Key: keys[k]}
			for v, m := 0, r.Range(1, 3); v < m; v++ {
				x := Pick(r, tagVals)
				if x == "`" && r.P(0.9) {
					x = "b"
				}
				kv.Values = append(kv.Values, x)
			}
			t.KVs = append(t.KVs, kv)
		}
		out = append(out, t)
	}
	return out
}

// AddTags puts tags no target knows on every kind of declaration.
func AddTags(r *Rng, s *Schema) {
	g := &Gen{R: r}
	for _, f := range s.Files {
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *Enum:
				x.Tags = append(x.Tags, g.tags()...)
				for _, it := range x.Items {
					it.Tags = append(it.Tags, g.tags()...)
				}
			case *Data:
				x.Tags = append(x.Tags, g.tags()...)
				for _, fl := range x.Fields {
					fl.Tags = append(fl.Tags, g.tags()...)
				}
			case *Server:
				x.Tags = append(x.Tags, g.tags()...)
				for _, m := range x.Methods {
					m.Tags = append(m.Tags, g.tags()...)
				}
			}
		}
	}
}
