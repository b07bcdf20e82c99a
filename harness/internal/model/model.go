// Package model is the reference description of an hbuf schema: what the
// harness means by a schema, independently of the compiler under test.
package model

import (
	"fmt"
	"path"
	"strconv"
	"strings"
	"unicode"
)

// Base type names of the language.
const (
	Int8    = "int8"
	Int16   = "int16"
	Int32   = "int32"
	Int64   = "int64"
	Uint8   = "uint8"
	Uint16  = "uint16"
	Uint32  = "uint32"
	Uint64  = "uint64"
	Bool    = "bool"
	Float   = "float"
	Double  = "double"
	String  = "string"
	Date    = "date"
	Decimal = "decimal"
)

var BaseTypes = []string{Int8, Int16, Int32, Int64, Uint8, Uint16, Uint32, Uint64, Bool, Float, Double, String, Date, Decimal}

// MapKeyBases are the base types usable as JSON map keys in every target.
var MapKeyBases = []string{Int8, Int16, Int32, Int64, Uint8, Uint16, Uint32, Uint64, String}

type KV struct {
	Key    string
	Values []string // raw text between the quotes
	Esc    bool     // a value is written with escapes; only where they are read as such
}

type Tag struct {
	Name string
	KVs  []KV
}

type Kind int

const (
	KBase Kind = iota
	KEnum
	KData
)

// Ref is the element type of a field.
type Ref struct {
	Kind Kind
	Base string
	Enum *Enum
	Data *Data
	Null bool
}

type Cont int

const (
	None Cont = iota
	Array
	Map
)

type Type struct {
	Elem     Ref
	Cont     Cont
	Key      Ref
	ContNull bool
}

// IsNull says whether the field as a whole is nullable.
func (t Type) IsNull() bool {
	if t.Cont == None {
		return t.Elem.Null
	}
	return t.ContNull
}

type Field struct {
	Type    Type
	Name    string
	Id      string // literal text
	Doc     []string
	Tags    []Tag
	RawType string // if set, written instead of Type
}

func (f *Field) typeText() string {
	if f.RawType != "" {
		return f.RawType
	}
	return f.Type.String()
}

type Ext struct {
	Raw    string // if set, written instead of the name
	Data   *Data
	Server *Server
	Id     string
}

type Data struct {
	File    *File
	Name    string
	Extends []Ext
	Fields  []*Field
	Doc     []string
	Tags    []Tag
}

type Item struct {
	Name  string
	Id    string // literal text
	Value int
	Doc   []string
	Tags  []Tag
}

type Enum struct {
	File  *File
	Name  string
	Items []*Item
	Doc   []string
	Tags  []Tag
}

type Method struct {
	Result    *Data // nil: void
	Name      string
	Param     *Data
	ParamName string
	Id        string
	Doc       []string
	Tags      []Tag
	RawResult string // if set, written instead of Result
	RawParam  string
}

type Server struct {
	File    *File
	Name    string
	Extends []Ext
	Methods []*Method
	Doc     []string
	Tags    []Tag
}

// Decl is one of *Enum, *Data, *Server.
type Decl interface{ DeclName() string }

func (e *Enum) DeclName() string   { return e.Name }
func (d *Data) DeclName() string   { return d.Name }
func (s *Server) DeclName() string { return s.Name }

type File struct {
	Path       string // relative to the schema root, slash separated
	GoPkg      string
	JavaPkg    string
	Imports    []*File
	RawImports []string // further import paths, written as given
	Decls      []Decl
	Raw        string // if set, the source text as it is
}

// Base returns the file name without directory and extension.
func (f *File) Base() string { return strings.TrimSuffix(path.Base(f.Path), ".hbuf") }

type Schema struct {
	DB    []*DB
	Files []*File
}

func (s *Schema) Datas() (out []*Data) {
	for _, f := range s.Files {
		for _, d := range f.Decls {
			if x, ok := d.(*Data); ok {
				out = append(out, x)
			}
		}
	}
	return
}
func (s *Schema) Enums() (out []*Enum) {
	for _, f := range s.Files {
		for _, d := range f.Decls {
			if x, ok := d.(*Enum); ok {
				out = append(out, x)
			}
		}
	}
	return
}
func (s *Schema) Servers() (out []*Server) {
	for _, f := range s.Files {
		for _, d := range f.Decls {
			if x, ok := d.(*Server); ok {
				out = append(out, x)
			}
		}
	}
	return
}

// AllFields lists a data's fields with the inherited ones first, each name once.
func (d *Data) AllFields() []*Field {
	var out []*Field
	seen := map[string]bool{}
	var walk func(d *Data)
	walk = func(d *Data) {
		for _, e := range d.Extends {
			walk(e.Data)
		}
		for _, f := range d.Fields {
			if !seen[f.Name] {
				seen[f.Name] = true
				out = append(out, f)
			}
		}
	}
	walk(d)
	return out
}

// Ancestors lists every (transitive) base of d.
func (d *Data) Ancestors() []*Data {
	var out []*Data
	seen := map[*Data]bool{}
	var walk func(d *Data)
	walk = func(x *Data) {
		for _, e := range x.Extends {
			if !seen[e.Data] {
				seen[e.Data] = true
				out = append(out, e.Data)
				walk(e.Data)
			}
		}
	}
	walk(d)
	return out
}

// AllMethods lists a server's methods including inherited ones, each name once,
// with the server that declares it.
func (s *Server) AllMethods() []BoundMethod {
	var out []BoundMethod
	seen := map[string]bool{}
	var walk func(x *Server)
	walk = func(x *Server) {
		for _, m := range x.Methods {
			if !seen[m.Name] {
				seen[m.Name] = true
				out = append(out, BoundMethod{m, x})
			}
		}
		for _, e := range x.Extends {
			walk(e.Server)
		}
	}
	walk(s)
	return out
}

type BoundMethod struct {
	*Method
	Decl *Server
}

// ---- naming (reference definitions) ----

// Words splits an identifier at underscores and before upper-case letters.
func Words(s string) []string {
	var out []string
	cur := ""
	flush := func() {
		if cur != "" {
			out = append(out, cur)
			cur = ""
		}
	}
	for _, r := range s {
		switch {
		case r == '_':
			flush()
		case r >= 'A' && r <= 'Z':
			flush()
			cur = string(r)
		default:
			cur += string(r)
		}
	}
	flush()
	return out
}

// Snake is the wire form of a name.
func Snake(s string) string { return strings.ToLower(strings.Join(Words(s), "_")) }

// AllUpper is the constant form of a name.
func AllUpper(s string) string { return strings.ToUpper(strings.Join(Words(s), "_")) }

// Hump is the exported form of a name: each underscore-separated part capitalised.
func Hump(s string) string {
	out := ""
	for _, p := range strings.Split(s, "_") {
		if p == "" {
			continue
		}
		r := []rune(p)
		out += string(unicode.ToUpper(r[0])) + string(r[1:])
	}
	return out
}

// Lower is Hump with the first letter in lower case.
func Lower(s string) string {
	h := []rune(Hump(s))
	if len(h) == 0 {
		return ""
	}
	return string(unicode.ToLower(h[0])) + string(h[1:])
}

// ---- plain rendering ----

func (t Type) String() string {
	s := t.Elem.Name()
	if t.Elem.Null {
		s += "?"
	}
	switch t.Cont {
	case Array:
		s += "[]"
	case Map:
		s += "<" + t.Key.Name() + ">"
	}
	if t.Cont != None && t.ContNull {
		s += "?"
	}
	return s
}

func (r Ref) Name() string {
	switch r.Kind {
	case KBase:
		return r.Base
	case KEnum:
		return r.Enum.Name
	}
	return r.Data.Name
}

func (t *Tag) String() string {
	s := "[" + t.Name + ":"
	for i, kv := range t.KVs {
		if i > 0 {
			s += "; "
		} else {
			s += " "
		}
		s += kv.Key + "="
		for j, v := range kv.Values {
			if j > 0 {
				s += ", "
			}
			if kv.Esc {
				s += strconv.Quote(v)
				continue
			}
			s += Quote(v)
		}
	}
	return s + "]"
}

// Quote renders a tag value. Values are taken raw between the quotes, so one
// with a double quote or backslash needs the raw form.
func Quote(v string) string {
	if strings.ContainsAny(v, "\"\\\n") {
		return "`" + v + "`"
	}
	return `"` + v + `"`
}

func rel(from, to string) string {
	fd := strings.Split(path.Dir(from), "/")
	td := strings.Split(path.Dir(to), "/")
	if path.Dir(from) == "." {
		fd = nil
	}
	if path.Dir(to) == "." {
		td = nil
	}
	i := 0
	for i < len(fd) && i < len(td) && fd[i] == td[i] {
		i++
	}
	out := strings.Repeat("../", len(fd)-i)
	for _, p := range td[i:] {
		out += p + "/"
	}
	return out + path.Base(to)
}

// Style is how a file is laid out; the zero value is a plain layout.
type Style struct {
	R     *Rng        // nil: plain
	Lines map[any]int // if not nil: filled with the line each element (pointer), import (ImportKey) or tag (*Tag) starts on
}

// ImportKey identifies the i-th import of a file in Style.Lines.
type ImportKey struct {
	F *File
	I int
}

func (st *Style) note(b *strings.Builder, key any) {
	if st.Lines != nil {
		st.Lines[key] = 1 + strings.Count(b.String(), "\n")
	}
}

func (st *Style) sp() string {
	if st.R == nil {
		return " "
	}
	return []string{" ", "  ", "\t", " \t ", " /* c */ ", "  "}[st.R.Intn(6)]
}
func (st *Style) osp() string {
	if st.R == nil {
		return ""
	}
	return []string{"", "", " ", "\t", "  ", "/*x*/"}[st.R.Intn(6)]
}
func (st *Style) eol() string {
	if st.R == nil {
		return "\n"
	}
	return []string{"\n", "\n", "\n\n", " \n", "\r\n", "\n\n\n", ";\n", " // trailing\n", "\t/* t */\n"}[st.R.Intn(9)]
}
func (st *Style) nl() string {
	if st.R == nil {
		return "\n"
	}
	return []string{"\n", "\n", "\n\n", " \n", "\r\n", "\n  \n"}[st.R.Intn(6)]
}
func (st *Style) doc(b *strings.Builder, ind string, doc []string) {
	if st.R != nil && st.R.P(0.15) {
		// a comment set off by a blank line documents nothing
		b.WriteString(ind + []string{"// section", "/* section */", "/* two\n lines */", "// a\n// b"}[st.R.Intn(4)] + []string{"\n\n", "\n \n", "\r\n\r\n", "\n\n\n"}[st.R.Intn(4)])
	}
	for _, l := range doc {
		nl := "\n"
		if st.R != nil && st.R.P(0.2) {
			nl = "\r\n"
		}
		if !strings.HasPrefix(l, "/*") {
			l = "// " + l
		}
		b.WriteString(ind + l + nl)
	}
}

// DocText is the text of documentation: line ends are line feeds, without
// trailing blanks, leading blank lines or runs of blank lines.
func DocText(doc []string) string {
	var lines []string
	for _, l := range doc {
		l = strings.ReplaceAll(l, "\r", "")
		if strings.HasPrefix(l, "/*") {
			l = l[2 : len(l)-2]
		}
		for _, x := range strings.Split(l, "\n") {
			x = strings.TrimRight(x, " \t")
			if x != "" || len(lines) > 0 && lines[len(lines)-1] != "" {
				lines = append(lines, x)
			}
		}
	}
	if n := len(lines); n > 0 && lines[n-1] != "" {
		lines = append(lines, "")
	}
	return strings.Join(lines, "\n")
}
func (st *Style) tags(b *strings.Builder, ind string, tags []Tag) {
	for i := range tags {
		st.note(b, &tags[i])
		b.WriteString(ind + tags[i].String() + "\n")
	}
}

// Render gives the file's source text.
func (f *File) Render(st *Style) string {
	if f.Raw != "" {
		return f.Raw
	}
	var b strings.Builder
	if f.GoPkg != "" {
		b.WriteString("package" + st.sp() + "go" + st.sp() + "=" + st.sp() + `"` + f.GoPkg + `"` + st.nl())
	}
	if f.JavaPkg != "" {
		b.WriteString("package" + st.sp() + "java" + st.osp() + "=" + st.osp() + `"` + f.JavaPkg + `"` + st.nl())
	}
	for i, im := range f.Imports {
		st.note(&b, ImportKey{f, i})
		b.WriteString("import" + st.sp() + `"` + rel(f.Path, im.Path) + `"` + st.nl())
	}
	for i, im := range f.RawImports {
		st.note(&b, ImportKey{f, len(f.Imports) + i})
		b.WriteString("import" + st.sp() + `"` + im + `"` + st.nl())
	}
	b.WriteString("\n")
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *Enum:
			st.doc(&b, "", x.Doc)
			st.tags(&b, "", x.Tags)
			st.note(&b, x)
			b.WriteString("enum" + st.sp() + x.Name + st.sp() + "{" + st.nl())
			for _, it := range x.Items {
				st.doc(&b, "    ", it.Doc)
				st.tags(&b, "    ", it.Tags)
				st.note(&b, it)
				b.WriteString("    " + it.Name + st.osp() + "=" + st.osp() + it.Id + st.eol())
			}
			b.WriteString("}" + st.eol())
		case *Data:
			st.doc(&b, "", x.Doc)
			st.tags(&b, "", x.Tags)
			st.note(&b, x)
			b.WriteString("data" + st.sp() + x.Name + st.exts(x.Extends) + st.sp() + "{" + st.nl())
			for _, fl := range x.Fields {
				st.doc(&b, "    ", fl.Doc)
				st.tags(&b, "    ", fl.Tags)
				st.note(&b, fl)
				b.WriteString("    " + fl.typeText() + st.sp() + fl.Name + st.osp() + "=" + st.osp() + fl.Id + st.eol())
			}
			b.WriteString("}" + st.eol())
		case *Server:
			st.doc(&b, "", x.Doc)
			st.tags(&b, "", x.Tags)
			st.note(&b, x)
			b.WriteString("server" + st.sp() + x.Name + st.exts(x.Extends) + st.sp() + "{" + st.nl())
			for _, m := range x.Methods {
				st.doc(&b, "    ", m.Doc)
				st.tags(&b, "    ", m.Tags)
				res := "void"
				if m.Result != nil {
					res = m.Result.Name
				}
				if m.RawResult != "" {
					res = m.RawResult
				}
				par := m.RawParam
				if par == "" {
					par = m.Param.Name
				}
				st.note(&b, m)
				b.WriteString("    " + res + st.sp() + m.Name + st.osp() + "(" + st.osp() + par + st.sp() + m.ParamName + st.osp() + ")" + st.osp() + "=" + st.osp() + m.Id + st.eol())
			}
			b.WriteString("}" + st.eol())
		}
		b.WriteString("\n")
	}
	return b.String()
}

func (st *Style) exts(ex []Ext) string {
	s := ""
	for i, e := range ex {
		if i == 0 {
			s += st.osp() + ":" + st.osp()
		} else {
			s += "," + st.osp()
		}
		n := ""
		if e.Raw != "" {
			n = e.Raw
		} else if e.Data != nil {
			n = e.Data.Name
		} else {
			n = e.Server.Name
		}
		s += n + st.sp() + "=" + st.osp() + e.Id
	}
	return s
}

// Sources renders every file.
func (s *Schema) Sources(r *Rng) map[string]string {
	out := map[string]string{}
	for _, f := range s.Files {
		out[f.Path] = f.Render(&Style{R: r})
	}
	return out
}

func (s *Schema) String() string {
	out := ""
	for _, f := range s.Files {
		out += fmt.Sprintf("=== %s\n%s\n", f.Path, f.Render(&Style{}))
	}
	return out
}

// ---- canonical form ----

// Dump is the canonical form of a file, as package refparse writes it; with
// docs, documentation is included.
func (f *File) Dump(docs bool) string {
	var b strings.Builder
	if f.GoPkg != "" {
		fmt.Fprintf(&b, "package go %q\n", f.GoPkg)
	}
	if f.JavaPkg != "" {
		fmt.Fprintf(&b, "package java %q\n", f.JavaPkg)
	}
	for _, im := range f.Imports {
		fmt.Fprintf(&b, "import %q\n", rel(f.Path, im.Path))
	}
	tags := func(ts []Tag) string {
		out := ""
		for _, t := range ts {
			out += "[" + t.Name + ":"
			for _, kv := range t.KVs {
				out += " " + kv.Key + "="
				for i, v := range kv.Values {
					if i > 0 {
						out += ","
					}
					out += fmt.Sprintf("%q", v)
				}
			}
			out += "]"
		}
		return out
	}
	doc := func(d []string) {
		if t := DocText(d); docs && t != "" {
			fmt.Fprintf(&b, "#%q\n", t)
		}
	}
	ext := func(es []Ext) string {
		out := ""
		for _, e := range es {
			n := ""
			if e.Data != nil {
				n = e.Data.Name
			} else {
				n = e.Server.Name
			}
			out += " :" + n + "=" + e.Id
		}
		return out
	}
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *Data:
			doc(x.Doc)
			fmt.Fprintf(&b, "%sdata %s%s\n", tags(x.Tags), x.Name, ext(x.Extends))
			for _, fl := range x.Fields {
				doc(fl.Doc)
				fmt.Fprintf(&b, " %s%s %s %s\n", tags(fl.Tags), fl.Type.String(), fl.Name, fl.Id)
			}
		case *Enum:
			doc(x.Doc)
			fmt.Fprintf(&b, "%senum %s\n", tags(x.Tags), x.Name)
			for _, it := range x.Items {
				doc(it.Doc)
				fmt.Fprintf(&b, " %s%s %s\n", tags(it.Tags), it.Name, it.Id)
			}
		case *Server:
			doc(x.Doc)
			fmt.Fprintf(&b, "%sserver %s%s\n", tags(x.Tags), x.Name, ext(x.Extends))
			for _, m := range x.Methods {
				doc(m.Doc)
				res := "void"
				if m.Result != nil {
					res = m.Result.Name
				}
				fmt.Fprintf(&b, " %s%s %s(%s %s) %s\n", tags(m.Tags), res, m.Name, m.Param.Name, m.ParamName, m.Id)
			}
		}
	}
	return b.String()
}

// BoundField is a member with the data that declares it.
type BoundField struct {
	*Field
	Decl *Data
}

// BoundFields lists a data's fields with the inherited ones first, each name once.
func (d *Data) BoundFields() []BoundField {
	var out []BoundField
	seen := map[string]bool{}
	var walk func(d *Data)
	walk = func(d *Data) {
		for _, e := range d.Extends {
			walk(e.Data)
		}
		for _, f := range d.Fields {
			if !seen[f.Name] {
				seen[f.Name] = true
				out = append(out, BoundField{f, d})
			}
		}
	}
	walk(d)
	return out
}

// Redeclared says whether a base of d declares a member of that name.
func (d *Data) Redeclared(name string) bool {
	for _, a := range d.Ancestors() {
		for _, f := range a.Fields {
			if f.Name == name {
				return true
			}
		}
	}
	return false
}
