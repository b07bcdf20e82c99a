package dart

import (
	"fmt"
	"sort"
	"strings"
)

// World is a set of files that import each other.
type World struct {
	Libs map[string]*Lib
	// Steps bounds the execution.
	Steps int
	depth int
	// Host answers what only the surroundings can: calls of natives.
	Host func(name string, this *Obj, args []any, named map[string]any, ta []*Type) (any, bool)
}

// Problem is a defect found without running anything.
type Problem struct {
	File string
	Line int
	Key  string
	Msg  string
}

func (p *Problem) String() string { return fmt.Sprintf("%s:%d: %s", p.File, p.Line, p.Msg) }

func words(s string) map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(s) {
		m[w] = true
	}
	return m
}

const widgetNames = `BuildContext Widget StatelessWidget StatefulWidget State Text TextStyle Image SizedBox Container Row Column BoxFit Locale Localizations LocalizationsDelegate EdgeInsets EdgeInsetsGeometry TextOverflow
 Navigator Icon IconData Color Key Padding Center Form FormField TextEditingController VoidCallback Expanded Align Alignment Wrap Stack Positioned Builder`

var libNames = map[string]map[string]bool{
	"dart:core": words(`int double num String bool List Map Set Iterable MapEntry DateTime Duration Object Function Future Null Type RegExp Exception Error FormatException StateError ArgumentError
 identical print override deprecated Comparable BigInt StringBuffer Uri Symbol Iterator Stream Pattern Match RangeError UnsupportedError UnimplementedError TypeError StackTrace Sink Stopwatch`),
	"dart:typed_data":                        words(`ByteData Uint8List Int8List Uint16List Int16List Uint32List Int32List Float32List Float64List ByteBuffer Endian`),
	"dart:convert":                           words(`json utf8 jsonEncode jsonDecode base64 base64Encode base64Decode Codec Converter`),
	"package:decimal/decimal.dart":           words(`Decimal`),
	"package:fixnum/fixnum.dart":             words(`Int64 Int32 IntX`),
	"package:hbuf_dart/hbuf_dart.dart":       words(`Data Client Context ServerClient ServerRouter ServerInvoke`),
	"package:flutter/foundation.dart":        words(`SynchronousFuture Key VoidCallback`),
	"package:flutter/widgets.dart":           words(widgetNames),
	"package:flutter/material.dart":          words(widgetNames + ` Checkbox Tooltip DropdownMenuItem InputDecoration Material Scaffold AppBar TextField TextFormField ElevatedButton Colors Icons Theme ThemeData Switch Dialog`),
	"package:hbuf_flutter/hbuf_flutter.dart": words(`TextFormBuild ClickFormBuild FileFormBuild ImageFormBuild ImageFormImage MenuFormBuild DatetimeFormBuild SwitchFormBuild TablesBuild TablesRow TablesCell TablesColumn`),
}

// LibraryNames are names the runtime libraries declare: no generated declaration can share a file with them.
func LibraryNames() map[string]bool {
	m := map[string]bool{}
	for _, l := range libNames {
		for n := range l {
			m[n] = true
		}
	}
	return m
}

// builtinMembers are what classes of the libraries bring to their subclasses.
var builtinMembers = map[string]map[string]bool{
	"ServerClient":          words(`invoke client name id`),
	"ServerRouter":          words(`name id invokeNames invokeIds`),
	"Data":                  words(`toMap toData copy`),
	"LocalizationsDelegate": words(`type isSupported load shouldReload`),
}

// builtinAbstract are members that a class must bring itself.
var builtinAbstract = map[string][]string{
	"ServerClient":          {"name", "id"},
	"ServerRouter":          {"name", "id", "invokeNames", "invokeIds"},
	"Data":                  {"toMap", "toData", "copy"},
	"LocalizationsDelegate": {"isSupported", "load", "shouldReload"},
}

var objectMembers = words(`hashCode runtimeType toString noSuchMethod ==`)

// Load parses files.
func Load(files map[string]string) (*World, []*SyntaxError) {
	w := &World{Libs: map[string]*Lib{}, Steps: 2_000_000}
	var errs []*SyntaxError
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		l, err := Parse(n, files[n])
		if err != nil {
			errs = append(errs, err.(*SyntaxError))
			continue
		}
		l.World = w
		w.Libs[n] = l
	}
	return w, errs
}

type nscope struct {
	up    *nscope
	names map[string]*Type
}

type resolver struct {
	w    *World
	lib  *Lib
	cls  *Class
	m    *Member
	out  []*Problem
	seen map[string]bool
	sc   *nscope
	// names compared with null or asserted anywhere in the member
	tested map[string]bool
	depth  int // of closures
}

func (r *resolver) say(pos int, key, f string, a ...any) {
	p := &Problem{File: r.lib.File, Line: 1 + strings.Count(r.lib.Src[:min(pos, len(r.lib.Src))], "\n"), Key: key, Msg: fmt.Sprintf(f, a...)}
	if s := p.String(); !r.seen[s] {
		r.seen[s] = true
		r.out = append(r.out, p)
	}
}

// Check resolves every name of every file.
func (w *World) Check() []*Problem {
	r := &resolver{w: w, seen: map[string]bool{}}
	var names []string
	for n := range w.Libs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		r.lib = w.Libs[n]
		r.file()
	}
	return r.out
}

func (l *Lib) imported() (libs []*Lib, builtin []string) {
	for _, i := range l.Imports {
		if x := l.World.Libs[i]; x != nil {
			if x != l {
				libs = append(libs, x)
			}
		} else if libNames[i] != nil {
			builtin = append(builtin, i)
		}
	}
	return
}

// find looks a top-level name up: a class, a top-level member, or the name of a builtin.
func (l *Lib) find(name string) (c *Class, m *Member, builtin bool, n int) {
	if c := l.Classes[name]; c != nil {
		return c, nil, false, 1
	}
	if m := l.Tops[name]; m != nil {
		return nil, m, false, 1
	}
	libs, bs := l.imported()
	if !strings.HasPrefix(name, "_") {
		for _, x := range libs {
			if d := x.Classes[name]; d != nil {
				c = d
				n++
			}
			if d := x.Tops[name]; d != nil {
				m = d
				n++
			}
		}
	}
	for _, b := range bs {
		if libNames[b][name] {
			// flutter's libraries export the same declarations
			if !builtin && n == 0 {
				n++
			} else if !builtin {
				n++
			}
			builtin = true
		}
	}
	if n == 0 && libNames["dart:core"][name] {
		return nil, nil, true, 1
	}
	if c != nil || m != nil {
		return c, m, builtin, n
	}
	return nil, nil, builtin, n
}

func (r *resolver) file() {
	l := r.lib
	dup := map[string]bool{}
	for _, i := range l.Imports {
		if dup[i] {
			r.say(0, "import-twice", "%s is imported twice", i)
		}
		dup[i] = true
		if r.w.Libs[i] == nil && libNames[i] == nil {
			r.say(0, "import-missing", "the import '%s' does not exist", i)
		}
	}
	for _, c := range l.Order {
		r.class(c)
	}
	var tops []string
	for n := range l.Tops {
		tops = append(tops, n)
	}
	sort.Strings(tops)
	for _, n := range tops {
		r.cls = nil
		r.member(l.Tops[n])
	}
}

func (r *resolver) typ(t *Type) *Class {
	if t == nil {
		return nil
	}
	if t.Fn {
		r.typ(t.Ret)
		for _, p := range t.Par {
			r.typ(p.T)
		}
		return nil
	}
	for _, a := range t.Args {
		r.typ(a)
	}
	if t.Name == "void" || t.Name == "dynamic" || t.Name == "Function" {
		return nil
	}
	if r.cls != nil {
		for _, p := range r.cls.TParams {
			if p == t.Name {
				return nil
			}
		}
	}
	c, m, b, n := r.lib.find(t.Name)
	switch {
	case n == 0 || m != nil:
		r.say(t.Pos, "type-undefined", "the type %s is neither declared here nor imported", t.Name)
	case n > 1:
		r.say(t.Pos, "type-ambiguous", "the type %s is imported from two libraries", t.Name)
	}
	if b {
		want := map[string]int{"Map": 2, "List": 1, "Set": 1, "Future": 1, "MapEntry": 2, "Iterable": 1}
		if k, ok := want[t.Name]; ok && len(t.Args) != 0 && len(t.Args) != k {
			r.say(t.Pos, "type-arguments", "wrong number of type arguments for %s", t.Name)
		}
		if _, ok := want[t.Name]; !ok && len(t.Args) > 0 {
			switch t.Name {
			case "int", "double", "num", "String", "bool", "DateTime", "Object", "Int64", "Decimal", "ByteData", "Uint8List":
				r.say(t.Pos, "type-arguments", "%s takes no type arguments", t.Name)
			}
		}
	}
	if c != nil && len(t.Args) != len(c.TParams) && len(t.Args) > 0 {
		r.say(t.Pos, "type-arguments", "wrong number of type arguments for %s", t.Name)
	}
	return c
}

// supers lists the direct supertypes: classes and builtin names.
func (c *Class) supers() (cs []*Class, bs []string) {
	ts := append([]*Type{}, c.With...)
	if c.Extends != nil {
		ts = append(ts, c.Extends)
	}
	ts = append(ts, c.Impl...)
	for _, t := range ts {
		d, _, b, _ := c.Lib.find(t.Name)
		if d != nil {
			cs = append(cs, d)
		} else if b {
			bs = append(bs, t.Name)
		}
	}
	return
}

// iface collects the members of a class' interface: name (with = for setters) to the members.
func (c *Class) iface(seen map[*Class]bool, out map[string][]*Member, builtin map[string]bool) {
	if seen[c] {
		return
	}
	seen[c] = true
	for _, m := range c.Members {
		if m.Static || m.Kind == "ctor" || m.Kind == "factory" {
			continue
		}
		switch m.Kind {
		case "set":
			out[m.Name+"="] = append(out[m.Name+"="], m)
		case "field":
			out[m.Name] = append(out[m.Name], m)
			if !m.Final {
				out[m.Name+"="] = append(out[m.Name+"="], m)
			}
		default:
			out[m.Name] = append(out[m.Name], m)
		}
	}
	cs, bs := c.supers()
	for _, b := range bs {
		builtin[b] = true
	}
	for _, d := range cs {
		d.iface(seen, out, builtin)
	}
}

// Is says whether c is, or is a subtype of, a class or builtin of that name.
func (c *Class) Is(name string) bool {
	if c.Name == name {
		return true
	}
	cs, bs := c.supers()
	for _, b := range bs {
		if b == name {
			return true
		}
	}
	for _, d := range cs {
		if d != c && d.Is(name) {
			return true
		}
	}
	return false
}

// impl finds the implementation of a member: in the class, its mixins and its superclasses.
func (c *Class) impl(name string, set bool) *Member {
	for x, k := c, 0; x != nil && k < 50; k++ {
		for _, m := range x.Members {
			if m.Static || m.Name != name || m.Kind == "ctor" || m.Kind == "factory" {
				continue
			}
			if m.Kind == "field" && (!set || !m.Final) || (m.Kind == "set") == set && m.Kind != "field" && m.Body != nil {
				return m
			}
		}
		if x.Extends == nil {
			break
		}
		d, _, _, _ := x.Lib.find(x.Extends.Name)
		x = d
	}
	return nil
}

func (r *resolver) class(c *Class) {
	r.cls = c
	for _, t := range append(append([]*Type{c.Extends}, c.With...), c.Impl...) {
		r.typ(t)
	}
	dup := map[string]bool{}
	for _, t := range c.Impl {
		if dup[t.Name] {
			r.say(c.Pos, "implements-twice", "%s implements %s twice", c.Name, t.Name)
		}
		dup[t.Name] = true
		if t.Name == c.Name {
			r.say(c.Pos, "implements-itself", "%s implements itself", c.Name)
			return
		}
	}
	for _, m := range c.Members {
		r.cls = c
		r.member(m)
	}
	ifc, bs := map[string][]*Member{}, map[string]bool{}
	c.iface(map[*Class]bool{}, ifc, bs)
	// overrides
	for _, m := range c.Members {
		for _, a := range m.Meta {
			if a != "override" {
				continue
			}
			k := m.Name
			if m.Kind == "set" {
				k += "="
			}
			found := objectMembers[m.Name]
			for _, o := range append(append([]*Member{}, ifc[k]...), ifc[m.Name+"="]...) {
				found = found || o.Class != c
			}
			for b := range bs {
				found = found || builtinMembers[b] == nil || builtinMembers[b][m.Name]
			}
			if !found {
				r.say(m.Pos, "override-nothing", "%s.%s overrides nothing", c.Name, m.Name)
			}
		}
	}
	if !c.Abstract {
		var ks []string
		for k := range ifc {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			name, set := strings.CutSuffix(k, "=")
			if name == "=" || name == "" { // operator ==
				name, set = "==", false
			}
			if c.impl(name, set) == nil {
				r.say(c.Pos, "abstract-member", "%s does not implement %s, declared in %s", c.Name, k, ifc[k][0].Class.Name)
			}
		}
		var bn []string
		for b := range bs {
			bn = append(bn, b)
		}
		sort.Strings(bn)
		for _, b := range bn {
			for _, n := range builtinAbstract[b] {
				if c.impl(n, false) == nil {
					r.say(c.Pos, "abstract-member", "%s does not implement %s of %s", c.Name, n, b)
				}
			}
		}
	}
	// members of one name agree
	for k, ms := range ifc {
		_ = k
		for _, m := range ms {
			if m == ms[0] {
				continue
			}
			a, b := ms[0], m
			if (a.Kind == "method") != (b.Kind == "method") {
				r.say(a.Pos, "override-kind", "%s.%s and %s.%s are not of one kind", a.Class.Name, a.Name, b.Class.Name, b.Name)
			}
		}
	}
	for _, m := range c.Members {
		if m.Static || m.Kind == "ctor" || m.Kind == "factory" {
			continue
		}
		k := m.Name
		if m.Kind == "set" {
			k += "="
		}
		for _, o := range ifc[k] {
			if o != m && o.Class != c {
				r.override(m, o)
			}
		}
	}
}

func typeOf(m *Member) *Type {
	if m.Kind == "set" {
		return m.Params[0].T
	}
	return m.T
}

// override checks that m may override o.
func (r *resolver) override(m, o *Member) {
	a, b := typeOf(m), typeOf(o)
	switch {
	case m.Kind == "set" && o.Kind != "method":
		if !r.sub(b, o.Class.Lib, a, m.Class.Lib) {
			r.say(m.Pos, "override-type", "the setter %s.%s takes %s, %s's takes %s", m.Class.Name, m.Name, a, o.Class.Name, b)
		}
		return
	case !r.sub(a, m.Class.Lib, b, o.Class.Lib):
		r.say(m.Pos, "override-type", "%s.%s is of type %s, %s's is of type %s", m.Class.Name, m.Name, a, o.Class.Name, b)
	}
	if m.Kind == "field" && !m.Final && (o.Kind == "field" || o.Kind == "get") {
		if hasSetter(o) && !r.sub(b, o.Class.Lib, a, m.Class.Lib) {
			r.say(m.Pos, "override-type", "%s.%s is of type %s, %s's is of type %s", m.Class.Name, m.Name, a, o.Class.Name, b)
		}
	}
	if m.Kind == "method" && o.Kind == "method" {
		pos := func(x *Member) (p, opt []*Param, n map[string]*Param) {
			n = map[string]*Param{}
			for _, q := range x.Params {
				switch {
				case q.Named:
					n[q.Name] = q
				case q.Optional:
					opt = append(opt, q)
				default:
					p = append(p, q)
				}
			}
			return
		}
		mp, mo, mn := pos(m)
		op, oo, on := pos(o)
		if len(mp) > len(op) || len(mp)+len(mo) < len(op)+len(oo) {
			r.say(m.Pos, "override-params", "%s.%s cannot take what %s.%s takes", m.Class.Name, m.Name, o.Class.Name, o.Name)
			return
		}
		all := append(append([]*Param{}, mp...), mo...)
		for i, q := range append(append([]*Param{}, op...), oo...) {
			if !r.sub(q.T, o.Class.Lib, all[i].T, m.Class.Lib) {
				r.say(m.Pos, "override-params", "parameter %s of %s.%s is of type %s, %s's is of type %s", all[i].Name, m.Class.Name, m.Name, all[i].T, o.Class.Name, q.T)
			}
		}
		for n, q := range on {
			if mn[n] == nil {
				r.say(m.Pos, "override-params", "%s.%s lacks the parameter %s of %s", m.Class.Name, m.Name, n, o.Class.Name)
			} else if !r.sub(q.T, o.Class.Lib, mn[n].T, m.Class.Lib) {
				r.say(m.Pos, "override-params", "parameter %s of %s.%s is of type %s, %s's is of type %s", n, m.Class.Name, m.Name, mn[n].T, o.Class.Name, q.T)
			}
		}
	}
}

func hasSetter(m *Member) bool {
	if m.Kind == "field" {
		return !m.Final
	}
	for _, x := range m.Class.Members {
		if x.Kind == "set" && x.Name == m.Name {
			return true
		}
	}
	return false
}

func (t *Type) String() string {
	if t == nil {
		return "dynamic"
	}
	s := t.Name
	if t.Fn {
		s = t.Ret.String() + " Function(...)"
	}
	if len(t.Args) > 0 {
		var a []string
		for _, x := range t.Args {
			a = append(a, x.String())
		}
		s += "<" + strings.Join(a, ", ") + ">"
	}
	if t.Null {
		s += "?"
	}
	return s
}

// sub says whether a (written in la) is a subtype of b (written in lb).
func (r *resolver) sub(a *Type, la *Lib, b *Type, lb *Lib) bool {
	if b == nil || b.Name == "dynamic" || b.Name == "void" {
		return true
	}
	if a == nil || a.Name == "dynamic" {
		return a != nil && b.Null && b.Name == "Object"
	}
	if a.Name == "void" {
		return false
	}
	if a.Null && !b.Null {
		return false
	}
	if b.Fn || a.Fn {
		return a.Fn && b.Fn || b.Name == "Function" && !b.Fn || b.Name == "Object"
	}
	if b.Name == "Object" {
		return true
	}
	ca, _, _, _ := la.find(a.Name)
	cb, _, _, _ := lb.find(b.Name)
	if ca != nil {
		if cb != nil {
			return ca == cb || ca.isClass(cb, 0)
		}
		return ca.Is(b.Name)
	}
	if cb != nil {
		return false
	}
	if a.Name != b.Name {
		return (b.Name == "num" && (a.Name == "int" || a.Name == "double")) || b.Name == "Iterable" && (a.Name == "List" || a.Name == "Set") && (len(b.Args) == 0 || len(a.Args) > 0 && r.sub(a.Args[0], la, b.Args[0], lb))
	}
	for i := range b.Args {
		if i >= len(a.Args) || !r.sub(a.Args[i], la, b.Args[i], lb) {
			return false
		}
	}
	return true
}

func (c *Class) isClass(d *Class, depth int) bool {
	if c == d {
		return true
	}
	if depth > 60 {
		return false
	}
	cs, _ := c.supers()
	for _, x := range cs {
		if x != c && x.isClass(d, depth+1) {
			return true
		}
	}
	return false
}

func (r *resolver) push() { r.sc = &nscope{up: r.sc, names: map[string]*Type{}} }
func (r *resolver) pop()  { r.sc = r.sc.up }
func (r *resolver) def(pos int, name string, t *Type) {
	if _, ok := r.sc.names[name]; ok {
		r.say(pos, "local-twice", "%s is declared twice", name)
	}
	r.sc.names[name] = t
}

func (r *resolver) params(ps []*Param) {
	for _, p := range ps {
		r.typ(p.T)
		if p.This {
			found := false
			for _, m := range r.cls.Members {
				if m.Kind == "field" && !m.Static && m.Name == p.Name {
					found = true
					if p.T == nil {
						p.T = m.T
					}
				}
			}
			if !found {
				r.say(p.Pos, "field-undefined", "%s has no field %s", r.cls.Name, p.Name)
			}
		}
		if (p.Named || p.Optional) && p.Def == nil && !p.Required && p.T != nil && !p.T.Null && !p.T.Fn && p.T.Name != "dynamic" {
			r.say(p.Pos, "optional-not-null", "the optional parameter %s is of type %s, which has no null, and has no default", p.Name, p.T)
		}
		r.expr(p.Def)
		r.def(p.Pos, p.Name, p.T)
	}
}

func (r *resolver) member(m *Member) {
	r.m = m
	r.sc = nil
	r.tested = map[string]bool{}
	r.push()
	if m.Kind != "ctor" && m.Kind != "factory" {
		r.typ(m.T)
	}
	if m.Kind == "field" {
		if m.Init == nil && !m.Late && m.T != nil && !m.T.Null && m.T.Name != "dynamic" && (m.Static || !r.inited(m)) {
			r.say(m.Pos, "field-uninitialised", "the field %s is of type %s, which has no null, and is never initialised", m.Name, m.T)
		}
		r.expr(m.Init)
		return
	}
	r.params(m.Params)
	for _, i := range m.Inits {
		switch i.K {
		case "superinit":
			r.args(i)
		default:
			found := false
			for _, f := range r.cls.Members {
				found = found || f.Kind == "field" && f.Name == i.S
			}
			if !found {
				r.say(i.Pos, "field-undefined", "%s has no field %s", r.cls.Name, i.S)
			}
			r.expr(i.A)
		}
	}
	if m.Body == nil {
		if m.Kind != "ctor" && m.Class != nil && (!m.Class.Abstract || m.Static) {
			r.say(m.Pos, "no-body", "%s.%s has no body", m.Class.Name, m.Name)
		}
		return
	}
	r.push()
	r.body(m.Body)
	if m.Body.K == "block" && m.Kind != "ctor" && m.Kind != "set" && m.T != nil && !ends(m.Body) {
		t := m.T
		if m.Async && t.Name == "Future" && len(t.Args) == 1 {
			t = t.Args[0]
		}
		if m.Kind == "factory" || !t.Null && t.Name != "void" && t.Name != "dynamic" {
			r.say(m.Pos, "no-return", "%s may end without returning a value", m.Name)
		}
	}
}

// result is the type of what the present member returns.
func (r *resolver) result() *Type {
	t := r.m.T
	if r.m.Kind == "ctor" || r.m.Kind == "factory" || r.m.Kind == "set" || t == nil {
		return nil
	}
	if t.Name == "Future" {
		if !r.m.Async || len(t.Args) != 1 {
			return nil
		}
		return t.Args[0]
	}
	return t
}

// inited says whether every constructor initialises the field.
func (r *resolver) inited(f *Member) bool {
	n := 0
	for _, m := range f.Class.Members {
		if m.Kind != "ctor" {
			continue
		}
		n++
		ok := false
		for _, p := range m.Params {
			ok = ok || p.This && p.Name == f.Name
		}
		for _, i := range m.Inits {
			ok = ok || i.K == "fieldinit" && i.S == f.Name
		}
		if !ok {
			return false
		}
	}
	return n > 0
}

// ends says whether control cannot reach the end of a statement.
func ends(n *Node) bool {
	switch n.K {
	case "return", "rethrow":
		return true
	case "expr":
		return n.A.K == "throw"
	case "block":
		for _, s := range n.L {
			if ends(s) {
				return true
			}
		}
	case "if":
		return n.C != nil && ends(n.B) && ends(n.C)
	case "try":
		return ends(n.A) && len(n.L) > 0
	case "switch":
		def := false
		for _, c := range n.L {
			def = def || c.K == "default"
		}
		if !def {
			return false
		}
		last := n.L[len(n.L)-1]
		return len(last.L) > 0 && ends(last.L[len(last.L)-1])
	}
	return false
}

func (r *resolver) body(n *Node) {
	if n.K == "arrow" {
		r.expr(n.A)
		if r.depth == 0 && r.m != nil {
			r.flow(n.A, r.result(), "the result of "+r.m.Name)
		}
		return
	}
	for _, s := range n.L {
		r.stmt(s)
	}
}

func (r *resolver) stmt(n *Node) {
	if n == nil {
		return
	}
	switch n.K {
	case "block":
		r.push()
		for _, s := range n.L {
			r.stmt(s)
		}
		r.pop()
	case "vars":
		for _, v := range n.L {
			r.typ(v.T)
			r.expr(v.A)
			if v.T != nil {
				r.flow(v.A, v.T, v.S)
			}
			t := v.T
			if t == nil {
				t = r.static(v.A)
			}
			r.def(v.Pos, v.S, t)
		}
	case "localfn":
		r.def(n.Pos, n.S, nil)
		r.expr(n.A)
	case "if", "while":
		r.expr(n.A)
		r.push()
		r.stmt(n.B)
		r.pop()
		r.push()
		r.stmt(n.C)
		r.pop()
	case "for":
		r.push()
		for _, s := range n.L {
			r.stmt(s)
		}
		r.expr(n.A)
		for _, e := range n.Sub {
			r.expr(e)
		}
		r.stmt(n.B)
		r.pop()
	case "forin":
		r.expr(n.A)
		r.push()
		r.typ(n.T)
		r.def(n.Pos, n.S, n.T)
		r.stmt(n.B)
		r.pop()
	case "return":
		r.expr(n.A)
		if r.depth == 0 && r.m != nil && n.A != nil {
			r.flow(n.A, r.result(), "the result of "+r.m.Name)
		}
	case "expr":
		r.expr(n.A)
	case "switch":
		r.expr(n.A)
		seen := map[string]bool{}
		for _, c := range n.L {
			if c.A != nil {
				r.expr(c.A)
				if c.A.K == "string" && len(c.A.Parts) == 1 {
					if seen[c.A.Parts[0].text] {
						r.say(c.Pos, "case-twice", "case '%s' stands twice", c.A.Parts[0].text)
					}
					seen[c.A.Parts[0].text] = true
				}
			}
			r.push()
			for _, s := range c.L {
				r.stmt(s)
			}
			r.pop()
		}
	case "try":
		r.stmt(n.A)
		for _, h := range n.L {
			r.push()
			r.typ(h.T)
			if h.S != "" {
				r.def(h.Pos, h.S, nil)
			}
			r.stmt(h.A)
			r.pop()
		}
		r.stmt(n.B)
	}
}

// local finds a local name.
func (r *resolver) local(name string) (*Type, bool) {
	for s := r.sc; s != nil; s = s.up {
		if t, ok := s.names[name]; ok {
			return t, true
		}
	}
	return nil, false
}

// memberOf says whether a name is a member visible in class c: ok, and the member if it is a generated one.
func memberOf(c *Class, name string) (*Member, bool) {
	for _, m := range c.Members {
		if m.Name == name && m.Kind != "ctor" && m.Kind != "factory" {
			return m, true
		}
	}
	ifc, bs := map[string][]*Member{}, map[string]bool{}
	c.iface(map[*Class]bool{}, ifc, bs)
	for _, k := range []string{name, name + "="} {
		if ms := ifc[k]; len(ms) > 0 {
			return ms[0], true
		}
	}
	for b := range bs {
		if builtinMembers[b] == nil || builtinMembers[b][name] {
			return nil, true
		}
	}
	return nil, objectMembers[name]
}

func (r *resolver) ident(n *Node) {
	if _, ok := r.local(n.S); ok {
		return
	}
	if r.cls != nil {
		if m, ok := memberOf(r.cls, n.S); ok {
			if m != nil && !m.Static && m.Class == r.cls && r.m != nil && (r.m.Static || r.m.Kind == "factory" || r.m.Kind == "field" && !r.m.Late) {
				r.say(n.Pos, "instance-member", "%s is a member of an instance, and there is none here", n.S)
			}
			return
		}
	}
	_, _, _, k := r.lib.find(n.S)
	switch {
	case k == 0:
		r.say(n.Pos, "name-undefined", "the name %s is neither declared here nor imported", n.S)
	case k > 1:
		r.say(n.Pos, "name-ambiguous", "the name %s is imported from two libraries", n.S)
	}
}

// static is the type of an expression as far as it is plain, or nil.
func (r *resolver) static(n *Node) *Type {
	if n == nil {
		return nil
	}
	switch n.K {
	case "id":
		if t, ok := r.local(n.S); ok {
			return t
		}
		if r.cls != nil {
			if m, ok := memberOf(r.cls, n.S); ok {
				if m != nil && (m.Kind == "field" || m.Kind == "get") {
					return m.T
				}
				return nil
			}
		}
		if _, m, _, _ := r.lib.find(n.S); m != nil && m.Kind != "method" {
			return m.T
		}
	case "paren":
		return r.static(n.A)
	case "int":
		return &Type{Name: "int"}
	case "double":
		return &Type{Name: "double"}
	case "string":
		return &Type{Name: "String"}
	case "true", "false":
		return &Type{Name: "bool"}
	case "null":
		return &Type{Name: "Null", Null: true}
	case "bang":
		if t := r.static(n.A); t != nil {
			u := *t
			u.Null = false
			return &u
		}
	case "prop", "nprop":
		if c := r.classNamed(n.A); c != nil {
			for _, m := range c.Members {
				if m.Name == n.S && m.Static && (m.Kind == "field" || m.Kind == "get") {
					return m.T
				}
			}
			return nil
		}
		t := r.memberType(n, false)
		if t != nil && shorted(n) {
			u := *t
			u.Null = true
			return &u
		}
		return t
	case "call":
		if n.A.K == "id" {
			if _, ok := r.local(n.A.S); !ok {
				if _, m, _, _ := r.lib.find(n.A.S); m != nil && m.Kind == "method" {
					return m.T
				}
			}
			if c := r.classNamed(n.A); c != nil {
				return &Type{Name: c.Name}
			}
			return nil
		}
		if c := r.classNamed(n.A.A); c != nil && n.A.K == "prop" {
			for _, m := range c.Members {
				if m.Name == n.A.S && m.Kind == "method" && m.Static {
					return m.T
				}
			}
			return nil
		}
		if n.A.K == "prop" || n.A.K == "nprop" {
			if t := r.memberType(n.A, true); t != nil && (t.Name != "Future" || len(t.Args) > 0) {
				u := *t
				u.Null = u.Null || shorted(n.A)
				return &u
			}
		}
		if n.A.K == "prop" && n.A.A.K == "id" {
			switch n.A.A.S + "." + n.A.S {
			case "Decimal.tryParse":
				return &Type{Name: "Decimal", Null: true}
			case "Decimal.parse", "Decimal.fromInt", "Decimal.fromJson":
				return &Type{Name: "Decimal"}
			case "Int64.parseInt":
				return &Type{Name: "Int64"}
			case "DateTime.tryParse":
				return &Type{Name: "DateTime", Null: true}
			case "num.tryParse":
				return &Type{Name: "num", Null: true}
			}
		}
		if n.A.K == "prop" || n.A.K == "nprop" {
			null := shorted(n.A)
			switch n.A.S {
			case "toInt", "compareTo":
				return &Type{Name: "int", Null: null}
			case "toDouble":
				return &Type{Name: "double", Null: null}
			case "toString", "join", "toStringAsFixed":
				return &Type{Name: "String", Null: null}
			}
		}
	}
	return nil
}

// shorted says whether the chain of members ends where something is null.
func shorted(n *Node) bool {
	for n != nil {
		switch n.K {
		case "nprop":
			return true
		case "prop", "call", "index":
			n = n.A
		default:
			return false
		}
	}
	return false
}

// memberType is the type of a member (or the result of a method) of a value whose class is known.
func (r *resolver) memberType(n *Node, method bool) *Type {
	var c *Class
	if n.A.K == "this" {
		c = r.cls
	} else if t := r.static(n.A); t != nil && !t.Fn {
		c, _, _, _ = r.lib.find(t.Name)
	}
	if c == nil {
		return nil
	}
	m, _ := memberOf(c, n.S)
	if m == nil || m.Static || (m.Kind == "method") != method {
		return nil
	}
	if m.Kind == "field" || m.Kind == "get" || m.Kind == "method" {
		return m.T
	}
	return nil
}

// basic are the types that a value is of exactly.
var basic = words(`int double String bool DateTime Decimal Int64`)

// flow reports a value that certainly is none of the type it is used as.
func (r *resolver) flow(n *Node, to *Type, what string) {
	if n == nil || to == nil || to.Fn || to.Name == "dynamic" || to.Name == "void" || to.Name == "Object" && to.Null {
		return
	}
	if c, _, builtin, _ := r.lib.find(to.Name); c == nil && !builtin {
		return // a type parameter
	}
	var alt func(n *Node, left bool)
	alt = func(n *Node, left bool) {
		switch {
		case n.K == "paren":
			alt(n.A, left)
			return
		case n.K == "cond":
			alt(n.B, left)
			alt(n.C, left)
			return
		case n.K == "binary" && n.S == "??":
			alt(n.A, true)
			alt(n.B, left)
			return
		case n.K == "binary", n.K == "throw":
			return
		}
		t := r.static(n)
		if t == nil || t.Fn || t.Name == "dynamic" {
			return
		}
		if t.Null && !to.Null && !left && !(n.K == "id" && r.tested[n.S]) {
			r.say(n.Pos, "null-flow", "%s may be null (its type is %s) where %s is of type %s", show(n), t, what, to)
			return
		}
		if basic[t.Name] && basic[to.Name] && t.Name != to.Name && !(n.K == "int" && to.Name == "double") {
			r.say(n.Pos, "type-flow", "%s is of type %s where %s is of type %s", show(n), t, what, to)
		}
	}
	alt(n, false)
}

// target is the type of what an assignment assigns to.
func (r *resolver) target(n *Node) *Type {
	switch n.K {
	case "id":
		if _, ok := r.local(n.S); !ok && r.cls != nil {
			if t := setType(r.cls, n.S); t != nil {
				return t
			}
		}
		return r.static(n)
	case "prop":
		var c *Class
		if n.A.K == "this" {
			c = r.cls
		} else if t := r.static(n.A); t != nil && !t.Fn {
			c, _, _, _ = r.lib.find(t.Name)
		}
		if c != nil {
			return setType(c, n.S)
		}
	}
	return nil
}

// setType is the type of the values that a member of a class can be given.
func setType(c *Class, name string) *Type {
	ifc := c.Interface()
	for _, k := range []string{name + "=", name} {
		for _, m := range ifc[k] {
			if m.Kind == "set" && len(m.Params) == 1 {
				return m.Params[0].T
			}
			if m.Kind == "field" {
				return m.T
			}
		}
	}
	return nil
}

// assertNull notes that a name is tested for null: later uses may be promoted.
func (r *resolver) test(n *Node) {
	for n != nil && n.K == "paren" {
		n = n.A
	}
	if n != nil && n.K == "id" {
		r.tested[n.S] = true
	}
}

// notNull reports a nullable expression where null is not allowed.
func (r *resolver) notNull(n *Node, what string) {
	t := r.static(n)
	if t == nil || !t.Null || t.Name == "dynamic" {
		return
	}
	if n.K == "id" && r.tested[n.S] {
		if _, ok := r.local(n.S); ok {
			return
		}
	}
	r.say(n.Pos, "null-unsafe", "%s may be null (its type is %s) where %s", show(n), t, what)
}

func show(n *Node) string {
	switch n.K {
	case "id":
		return n.S
	case "prop":
		return show(n.A) + "." + n.S
	case "call":
		return show(n.A) + "(...)"
	}
	return "an expression"
}

// strArg are functions whose first argument is a String.
var strArg = words(`RegExp.hasMatch Decimal.tryParse Decimal.parse Decimal.fromJson Int64.parseInt DateTime.tryParse DateTime.parse num.tryParse num.parse int.tryParse int.parse double.tryParse double.parse`)

func (r *resolver) args(n *Node) {
	for _, a := range n.L {
		r.expr(a)
	}
	for _, a := range n.Named {
		r.expr(a.A)
	}
	for _, t := range n.TA {
		r.typ(t)
	}
}

// callOf checks the arguments of a call of a known function.
func (r *resolver) callOf(n *Node, what string, ps []*Param, lib *Lib) {
	k := 0
	min := 0
	named := map[string]*Param{}
	for _, p := range ps {
		if p.Named {
			named[p.Name] = p
			continue
		}
		k++
		if !p.Optional {
			min++
		}
	}
	if len(n.L) < min || len(n.L) > k {
		r.say(n.Pos, "call-arguments", "%s is called with %d positional arguments", what, len(n.L))
	}
	given := map[string]bool{}
	check := func(a *Node, p *Param) {
		if p.T == nil {
			return
		}
		if !p.T.Null && p.T.Name != "dynamic" {
			r.notNull(a, "an argument of type "+p.T.String()+" is wanted")
		}
		if t := r.static(a); t != nil && t.Name != "Null" && t.Name != "dynamic" && !(a.K == "int" && p.T.Name == "double") {
			u, v := *t, *p.T
			u.Null, v.Null = false, false
			if !r.sub(&u, r.lib, &v, lib) {
				r.say(a.Pos, "call-type", "an argument of type %s for the parameter %s of type %s", t, p.Name, p.T)
			}
		}
	}
	for i, a := range n.L {
		if i < k {
			j := 0
			for _, p := range ps {
				if !p.Named {
					if j == i {
						check(a, p)
					}
					j++
				}
			}
		}
	}
	for _, a := range n.Named {
		given[a.S] = true
		if named[a.S] == nil {
			r.say(a.Pos, "call-arguments", "%s has no parameter %s", what, a.S)
		} else {
			check(a.A, named[a.S])
		}
	}
	for _, p := range ps {
		if p.Required && !given[p.Name] {
			r.say(n.Pos, "call-arguments", "%s is called without %s", what, p.Name)
		}
	}
}

func (c *Class) ctor(name string) *Member {
	n := 0
	for _, m := range c.Members {
		if m.Kind == "ctor" || m.Kind == "factory" {
			n++
			if m.Name == name {
				return m
			}
		}
	}
	if n == 0 && name == "" {
		return &Member{Kind: "ctor", Class: c, Lib: c.Lib}
	}
	return nil
}

func (r *resolver) static_(c *Class, n *Node) *Member {
	for _, m := range c.Members {
		if m.Static && m.Name == n.S {
			return m
		}
	}
	if m := c.ctor(n.S); m != nil && n.S != "" {
		return m
	}
	r.say(n.Pos, "static-undefined", "%s has no static member %s", c.Name, n.S)
	return nil
}

func (r *resolver) classNamed(n *Node) *Class {
	if n.K != "id" {
		return nil
	}
	if _, ok := r.local(n.S); ok {
		return nil
	}
	if r.cls != nil {
		if _, ok := memberOf(r.cls, n.S); ok {
			return nil
		}
	}
	c, _, _, _ := r.lib.find(n.S)
	return c
}

// leaves are the alternatives of a conditional expression.
func leaves(n *Node, out *[]*Node) {
	switch n.K {
	case "paren":
		leaves(n.A, out)
	case "cond":
		leaves(n.B, out)
		leaves(n.C, out)
	case "binary":
		if n.S == "??" {
			leaves(n.A, out)
			leaves(n.B, out)
			return
		}
		*out = append(*out, n)
	default:
		*out = append(*out, n)
	}
}

func (r *resolver) expr(n *Node) {
	if n == nil {
		return
	}
	switch n.K {
	case "id":
		r.ident(n)
	case "string":
		for _, s := range n.Sub {
			r.expr(s)
		}
	case "paren", "unary", "await", "throw", "post":
		r.expr(n.A)
	case "bang":
		r.expr(n.A)
		r.test(n.A)
	case "binary":
		r.expr(n.A)
		r.expr(n.B)
		switch n.S {
		case "==", "!=":
			if n.A.K == "null" {
				r.test(n.B)
			}
			if n.B.K == "null" {
				r.test(n.A)
			}
		case "<", ">", "<=", ">=", "+", "-", "*", "/", "~/", "%":
			r.notNull(n.A, "it is an operand of "+n.S)
			r.notNull(n.B, "it is an operand of "+n.S)
			if a, b := r.static(n.A), r.static(n.B); a != nil && b != nil && a.Name != b.Name && !(numeric(a) && numeric(b)) && a.Name != "dynamic" && b.Name != "dynamic" && n.S != "*" {
				r.say(n.Pos, "operand-types", "%s %s %s", a, n.S, b)
			}
		}
	case "cond":
		r.expr(n.A)
		r.expr(n.B)
		r.expr(n.C)
	case "assign":
		r.expr(n.A)
		r.expr(n.B)
		if n.S == "=" || n.S == "" {
			r.flow(n.B, r.target(n.A), show(n.A))
		}
		if n.A.K == "id" {
			if _, ok := r.local(n.A.S); !ok && r.cls != nil {
				if m, ok := memberOf(r.cls, n.A.S); ok && m != nil && m.Kind == "field" && (m.Final || m.Const) && !m.Late {
					r.say(n.Pos, "assign-final", "%s is final", n.A.S)
				}
			}
		}
	case "is", "as":
		r.expr(n.A)
		r.typ(n.T)
		r.test(n.A)
	case "prop":
		if c := r.classNamed(n.A); c != nil {
			r.static_(c, n)
			return
		}
		if n.A.K == "this" && r.cls != nil {
			if _, ok := memberOf(r.cls, n.S); !ok {
				r.say(n.Pos, "member-undefined", "%s has no member %s", r.cls.Name, n.S)
			}
			return
		}
		r.expr(n.A)
		if !objectMembers[n.S] {
			r.notNull(n.A, "its member "+n.S+" is used")
		}
		r.instance(n)
	case "nprop":
		r.expr(n.A)
		r.instance(n)
	case "index":
		r.expr(n.A)
		r.expr(n.B)
		r.notNull(n.A, "it is indexed")
	case "call":
		r.call(n)
	case "new":
		c := r.typ(n.T)
		r.args(n)
		if c != nil {
			if m := c.ctor(n.S); m == nil {
				r.say(n.Pos, "constructor-undefined", "%s has no constructor %s", c.Name, n.S)
			} else {
				r.construct(n, c, m)
				if n.Int == 1 && !m.Const {
					r.say(n.Pos, "const-constructor", "the constructor of %s is not const", c.Name)
				}
			}
		}
	case "list", "map", "set":
		for _, t := range n.TA {
			r.typ(t)
		}
		for _, e := range n.L {
			r.element(e)
		}
	case "lambda":
		r.push()
		r.params(n.P)
		r.push()
		r.depth++
		r.body(n.A)
		r.depth--
		r.pop()
		r.pop()
		if n.A.K == "arrow" {
			var ls []*Node
			leaves(n.A.A, &ls)
			// MapEntry(key, value): the types come from the arguments
			for _, l := range ls {
				if l.K == "call" && l.A.K == "id" && l.A.S == "MapEntry" {
					for _, a := range l.L {
						r.mixed(a)
					}
				}
			}
			r.mixed(n.A.A)
		}
	case "cascade":
		r.expr(n.A)
		r.cascade(n.B)
	case "recv", "this", "super", "null", "true", "false", "int", "double":
	}
}

func numeric(t *Type) bool { return t.Name == "int" || t.Name == "double" || t.Name == "num" }

// mixed reports a conditional expression without a context whose alternatives are integers and doubles.
func (r *resolver) mixed(n *Node) {
	var ls []*Node
	leaves(n, &ls)
	i, d := false, false
	for _, l := range ls {
		i = i || l.K == "int" || l.K == "call" && (l.A.K == "prop" || l.A.K == "nprop") && l.A.S == "toInt"
		d = d || l.K == "double" || l.K == "call" && (l.A.K == "prop" || l.A.K == "nprop") && l.A.S == "toDouble"
	}
	if i && d {
		r.say(n.Pos, "int-and-double", "alternatives of type int and double: the result is a num, neither int nor double")
	}
}

// instance checks a member of a value whose static type is known.
func (r *resolver) instance(n *Node) {
	t := r.static(n.A)
	if t == nil || t.Fn {
		return
	}
	c, _, _, _ := r.lib.find(t.Name)
	if c == nil {
		return
	}
	if _, ok := memberOf(c, n.S); !ok {
		r.say(n.Pos, "member-undefined", "%s has no member %s", c.Name, n.S)
	}
}

func (r *resolver) cascade(n *Node) {
	switch n.K {
	case "recv":
	case "prop", "nprop":
		r.cascade(n.A)
	case "call":
		r.cascade(n.A)
		r.args(n)
	case "index", "assign":
		r.cascade(n.A)
		r.expr(n.B)
	case "bang", "post":
		r.cascade(n.A)
	}
}

func (r *resolver) element(n *Node) {
	switch n.K {
	case "elif":
		r.expr(n.A)
		r.element(n.B)
		if n.C != nil {
			r.element(n.C)
		}
	case "entry":
		r.expr(n.A)
		r.expr(n.B)
	case "spread":
		r.expr(n.A)
	case "forin":
		r.expr(n.A)
		r.push()
		r.typ(n.T)
		r.def(n.Pos, n.S, n.T)
		r.element(n.B)
		r.pop()
	case "for":
		r.push()
		for _, s := range n.L {
			r.stmt(s)
		}
		r.expr(n.A)
		for _, e := range n.Sub {
			r.expr(e)
		}
		r.element(n.B)
		r.pop()
	default:
		r.expr(n)
	}
}

func (r *resolver) construct(n *Node, c *Class, m *Member) {
	if m.Kind == "ctor" && c.Abstract {
		r.say(n.Pos, "abstract-created", "%s is abstract", c.Name)
	}
	for _, p := range m.Params {
		if p.This && p.T == nil {
			for _, f := range c.Members {
				if f.Kind == "field" && f.Name == p.Name {
					p.T = f.T
				}
			}
		}
	}
	r.callOf(n, "the constructor of "+c.Name, m.Params, c.Lib)
}

func (r *resolver) call(n *Node) {
	f := n.A
	if c := r.classNamed(f); c != nil {
		r.args(n)
		if m := c.ctor(""); m == nil {
			r.say(n.Pos, "constructor-undefined", "%s has no unnamed constructor", c.Name)
		} else {
			r.construct(n, c, m)
		}
		return
	}
	if f.K == "prop" {
		if c := r.classNamed(f.A); c != nil {
			r.args(n)
			m := r.static_(c, f)
			switch {
			case m == nil:
			case m.Kind == "ctor" || m.Kind == "factory":
				r.construct(n, c, m)
			case m.Kind == "method":
				r.callOf(n, c.Name+"."+m.Name, m.Params, c.Lib)
			}
			return
		}
		if f.A.K == "id" && strArg[f.A.S+"."+f.S] || f.S == "hasMatch" {
			if len(n.L) != 1 {
				r.say(n.Pos, "call-arguments", "%s is called with %d arguments", f.S, len(n.L))
			} else {
				r.notNull(n.L[0], f.S+" takes a text")
				if t := r.static(n.L[0]); t != nil && t.Name != "String" && t.Name != "dynamic" && t.Name != "Null" {
					r.say(n.L[0].Pos, "call-type", "%s takes a String, not %s", f.S, t)
				}
			}
		}
	}
	if f.K == "id" {
		if _, ok := r.local(f.S); !ok {
			if _, m, _, _ := r.lib.find(f.S); m != nil && m.Kind == "method" && (r.cls == nil || func() bool { _, ok := memberOf(r.cls, f.S); return !ok }()) {
				r.callOf(n, f.S, m.Params, m.Lib)
			}
		}
	}
	if f.K == "id" && f.S == "Text" && len(n.L) > 0 {
		if c, _, builtin, _ := r.lib.find("Text"); c == nil && builtin {
			r.flow(n.L[0], &Type{Name: "String"}, "the text that Text shows")
		}
	}
	r.expr(f)
	r.args(n)
}

// Interface lists the members of the class' interface, inherited ones included: by name, setters with an = after it.
func (c *Class) Interface() map[string][]*Member {
	out := map[string][]*Member{}
	c.iface(map[*Class]bool{}, out, map[string]bool{})
	return out
}
