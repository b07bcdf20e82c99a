package dart

import (
	"fmt"
	"strings"
)

// Values of the interpreted language: nil, bool, int64, float64, string and the types below.

// Int64 is a fixnum.
type Int64 struct{ V int64 }

// List is a List; Iter an Iterable that is no List.
type List struct{ V []any }
type Iter struct{ V []any }

// Set is a Set in insertion order.
type Set struct{ V []any }

// Map is a Map in insertion order.
type Map struct{ K, V []any }

// Entry is a MapEntry.
type Entry struct{ K, V any }

// Future is a completed future, or one that never completes.
type Future struct {
	V       any
	Pending bool
}

// Obj is an instance of a generated class, or of a library class N.
type Obj struct {
	C *Class
	N string
	F map[string]any
}

// Closure is a function value.
type Closure struct {
	P      []*Param
	Body   *Node
	Async  bool
	Ret    *Type
	env    *env
	fr     *frame
	Native func(args []any, named map[string]any) any
}

// TypeVal is a type used as a value.
type TypeVal struct {
	Name string
	C    *Class
}

// Thrown is an exception of the interpreted program.
type Thrown struct {
	V   any
	Msg string
}

func (t *Thrown) Error() string { return t.Msg }

type cell struct {
	v   any
	t   *Type
	lib *Lib
}

type env struct {
	up   *env
	vars map[string]*cell
}

func (e *env) find(n string) *cell {
	for ; e != nil; e = e.up {
		if c := e.vars[n]; c != nil {
			return c
		}
	}
	return nil
}

func (e *env) def(n string, v any, t *Type, l *Lib) {
	e.vars[n] = &cell{v, t, l}
}

func sub(e *env) *env { return &env{up: e, vars: map[string]*cell{}} }

type frame struct {
	w    *World
	lib  *Lib
	cls  *Class
	this *Obj
	ret  *Type
}

// throw raises an error of the language or its libraries.
func throw(kind, f string, a ...any) {
	m := kind + ": " + fmt.Sprintf(f, a...)
	panic(&Thrown{&Obj{N: kind, F: map[string]any{"message": fmt.Sprintf(f, a...)}}, m})
}

// Try runs f and returns what the interpreted program threw.
func Try(f func() any) (v any, err error) {
	defer func() {
		if x := recover(); x != nil {
			if t, ok := x.(*Thrown); ok {
				v, err = nil, t
				return
			}
			panic(x)
		}
	}()
	return f(), nil
}

func (fr *frame) at(n *Node) string {
	return fmt.Sprintf("%s:%d", fr.lib.File, 1+strings.Count(fr.lib.Src[:min(n.Pos, len(fr.lib.Src))], "\n"))
}

// fits says whether a value may be stored where a type is declared.
func fits(v any, t *Type, l *Lib) bool {
	if t == nil || t.Name == "dynamic" || t.Name == "void" {
		return true
	}
	if v == nil {
		return t.Null || t.Name == "Null"
	}
	if t.Fn {
		_, ok := v.(*Closure)
		return ok
	}
	arg := func(i int) *Type {
		if i < len(t.Args) {
			return t.Args[i]
		}
		return nil
	}
	all := func(vs []any, t *Type) bool {
		for _, x := range vs {
			if !fits(x, t, l) {
				return false
			}
		}
		return true
	}
	if l != nil {
		if c, _, _, _ := l.find(t.Name); c != nil {
			o, ok := v.(*Obj)
			return ok && o.C != nil && o.C.isClass(c, 0)
		}
	}
	switch t.Name {
	case "Object":
		return true
	case "int":
		_, ok := v.(int64)
		return ok
	case "double":
		_, ok := v.(float64)
		return ok
	case "num":
		switch v.(type) {
		case int64, float64:
			return true
		}
		return false
	case "String":
		_, ok := v.(string)
		return ok
	case "bool":
		_, ok := v.(bool)
		return ok
	case "Function":
		_, ok := v.(*Closure)
		return ok
	case "Int64":
		_, ok := v.(Int64)
		return ok
	case "Decimal":
		_, ok := v.(*Decimal)
		return ok
	case "DateTime":
		_, ok := v.(DateTime)
		return ok
	case "List":
		x, ok := v.(*List)
		return ok && all(x.V, arg(0))
	case "Iterable":
		switch x := v.(type) {
		case *List:
			return all(x.V, arg(0))
		case *Iter:
			return all(x.V, arg(0))
		case *Set:
			return all(x.V, arg(0))
		}
		return false
	case "Set":
		x, ok := v.(*Set)
		return ok && all(x.V, arg(0))
	case "Widget":
		o, ok := v.(*Obj)
		return ok && (o.C != nil && o.C.Is("Widget") || o.C == nil && o.N != "BuildContext")
	case "Map":
		x, ok := v.(*Map)
		return ok && all(x.K, arg(0)) && all(x.V, arg(1))
	case "MapEntry":
		x, ok := v.(Entry)
		return ok && fits(x.K, arg(0), l) && fits(x.V, arg(1), l)
	case "Future":
		x, ok := v.(*Future)
		return ok && (x.Pending || fits(x.V, arg(0), l))
	}
	if o, ok := v.(*Obj); ok {
		if o.C == nil {
			n, _, _ := strings.Cut(o.N, ".")
			return n == t.Name || n == "*" || n == "EdgeInsets" && t.Name == "EdgeInsetsGeometry"
		}
		if o.C.Is(t.Name) {
			return true
		}
		libNamed := false
		for _, ns := range libNames {
			libNamed = libNamed || ns[t.Name]
		}
		return !libNamed // a type parameter
	}
	known := false
	for _, ns := range libNames {
		known = known || ns[t.Name]
	}
	return !known
}

// store checks a value against a declared type.
func (fr *frame) store(v any, t *Type, l *Lib, n *Node, what string) any {
	if !fits(v, t, l) {
		throw("TypeError", "%s: %s of type %s cannot hold %s of type %s", fr.at(n), what, t, Show(v), TypeName(v))
	}
	return v
}

// TypeName is the run-time type of a value.
func TypeName(v any) string {
	switch x := v.(type) {
	case nil:
		return "Null"
	case bool:
		return "bool"
	case int64:
		return "int"
	case float64:
		return "double"
	case string:
		return "String"
	case Int64:
		return "Int64"
	case *Decimal:
		return "Decimal"
	case DateTime:
		return "DateTime"
	case *Set:
		return "Set"
	case *List:
		return "List"
	case *Iter:
		return "Iterable"
	case *Map:
		return "Map"
	case Entry:
		return "MapEntry"
	case *Future:
		return "Future"
	case *Closure:
		return "Function"
	case *TypeVal:
		return "Type"
	case *Obj:
		if x.C != nil {
			return x.C.Name
		}
		return x.N
	}
	return fmt.Sprintf("%T", v)
}

type ctl int

const (
	cNext ctl = iota
	cReturn
	cBreak
	cContinue
)

func (fr *frame) step() {
	fr.w.Steps--
	if fr.w.Steps < 0 {
		throw("StepLimit", "the program does not end")
	}
}

// ctx gives the type an expression is evaluated for.
func elemType(t *Type, i int) *Type {
	if t != nil && i < len(t.Args) {
		return t.Args[i]
	}
	return nil
}

func (fr *frame) exec(n *Node, e *env) (ctl, any) {
	fr.step()
	switch n.K {
	case "arrow":
		return cReturn, fr.eval(n.A, e, fr.ret)
	case "block":
		e = sub(e)
		for _, s := range n.L {
			if c, v := fr.exec(s, e); c != cNext {
				return c, v
			}
		}
	case "vars":
		for _, v := range n.L {
			var x any
			if v.A != nil {
				x = fr.eval(v.A, e, v.T)
			}
			if v.A != nil || v.T != nil && v.T.Null {
				fr.store(x, v.T, fr.lib, v, v.S)
			}
			e.def(v.S, x, v.T, fr.lib)
		}
	case "localfn":
		e.def(n.S, nil, nil, nil)
		e.vars[n.S].v = fr.eval(n.A, e, nil)
	case "if":
		if fr.cond(n.A, e) {
			return fr.exec(n.B, sub(e))
		} else if n.C != nil {
			return fr.exec(n.C, sub(e))
		}
	case "while":
		for fr.cond(n.A, e) {
			fr.step()
			if c, v := fr.exec(n.B, sub(e)); c == cReturn {
				return c, v
			} else if c == cBreak {
				break
			}
		}
	case "for":
		e = sub(e)
		for _, s := range n.L {
			fr.exec(s, e)
		}
		for n.A == nil || fr.cond(n.A, e) {
			fr.step()
			if c, v := fr.exec(n.B, sub(e)); c == cReturn {
				return c, v
			} else if c == cBreak {
				break
			}
			for _, s := range n.Sub {
				fr.eval(s, e, nil)
			}
		}
	case "forin":
		for _, x := range fr.iterate(fr.eval(n.A, e, nil), n.A) {
			in := sub(e)
			in.def(n.S, fr.store(x, n.T, fr.lib, n, n.S), n.T, fr.lib)
			if c, v := fr.exec(n.B, in); c == cReturn {
				return c, v
			} else if c == cBreak {
				break
			}
		}
	case "return":
		if n.A == nil {
			return cReturn, nil
		}
		return cReturn, fr.eval(n.A, e, fr.ret)
	case "break":
		return cBreak, nil
	case "continue":
		return cContinue, nil
	case "expr":
		fr.eval(n.A, e, nil)
	case "switch":
		v := fr.eval(n.A, e, nil)
		run := -1
		for i, c := range n.L {
			if c.K == "case" && fr.equal(fr.eval(c.A, e, nil), v) {
				run = i
				break
			}
		}
		if run < 0 {
			for i, c := range n.L {
				if c.K == "default" {
					run = i
				}
			}
		}
		for ; run >= 0 && run < len(n.L); run++ {
			in := sub(e)
			for _, s := range n.L[run].L {
				if c, v := fr.exec(s, in); c == cBreak {
					return cNext, nil
				} else if c != cNext {
					return c, v
				}
			}
			if len(n.L[run].L) > 0 {
				break
			}
		}
	case "try":
		var c ctl
		var v any
		var thrown *Thrown
		func() {
			defer func() {
				if x := recover(); x != nil {
					t, ok := x.(*Thrown)
					if !ok {
						panic(x)
					}
					thrown = t
				}
			}()
			c, v = fr.exec(n.A, e)
		}()
		if thrown != nil {
			handled := false
			for _, h := range n.L {
				if h.T == nil || fits(thrown.V, h.T, fr.lib) {
					in := sub(e)
					if h.S != "" {
						in.def(h.S, thrown.V, nil, nil)
					}
					in.def("rethrow", thrown, nil, nil)
					c, v = fr.exec(h.A, in)
					handled = true
					break
				}
			}
			if n.B != nil {
				if c2, v2 := fr.exec(n.B, e); c2 != cNext {
					return c2, v2
				}
			}
			if !handled {
				panic(thrown)
			}
			return c, v
		}
		if n.B != nil {
			if c2, v2 := fr.exec(n.B, e); c2 != cNext {
				return c2, v2
			}
		}
		return c, v
	case "rethrow":
		if c := e.find("rethrow"); c != nil {
			panic(c.v.(*Thrown))
		}
		throw("Error", "rethrow outside a handler")
	default:
		panic("dart: statement " + n.K)
	}
	return cNext, nil
}

func (fr *frame) cond(n *Node, e *env) bool {
	b, ok := fr.eval(n, e, nil).(bool)
	if !ok {
		throw("TypeError", "%s: a condition that is no bool", fr.at(n))
	}
	return b
}

func (fr *frame) iterate(v any, n *Node) []any {
	switch x := v.(type) {
	case *List:
		return x.V
	case *Iter:
		return x.V
	}
	throw("TypeError", "%s: %s is not iterable", fr.at(n), TypeName(v))
	return nil
}

func (fr *frame) evalArgs(n *Node, e *env, ps []*Param) (args []any, named map[string]any) {
	var pos []*Param
	nm := map[string]*Param{}
	for _, p := range ps {
		if p.Named {
			nm[p.Name] = p
		} else {
			pos = append(pos, p)
		}
	}
	for i, a := range n.L {
		var t *Type
		if i < len(pos) {
			t = pos[i].T
		}
		args = append(args, fr.eval(a, e, t))
	}
	named = map[string]any{}
	for _, a := range n.Named {
		var t *Type
		if p := nm[a.S]; p != nil {
			t = p.T
		}
		named[a.S] = fr.eval(a.A, e, t)
	}
	return
}

// bind puts arguments into an environment.
func (fr *frame) bind(what string, ps []*Param, args []any, named map[string]any, lib *Lib, in *env, from *Node, set func(string, any)) {
	k := 0
	used := 0
	for _, p := range ps {
		var v any
		given := false
		if p.Named {
			v, given = named[p.Name]
			if given {
				used++
			} else if p.Required {
				throw("NoSuchMethodError", "%s is called without %s", what, p.Name)
			}
		} else {
			if k < len(args) {
				v, given = args[k], true
			} else if !p.Optional {
				throw("NoSuchMethodError", "%s is called with %d arguments", what, len(args))
			}
			k++
		}
		if !given && p.Def != nil {
			v = (&frame{w: fr.w, lib: lib}).eval(p.Def, sub(nil), p.T)
		}
		if !fits(v, p.T, lib) {
			throw("TypeError", "%s: parameter %s of %s is of type %s, the argument is %s of type %s", fr.at(from), p.Name, what, p.T, Show(v), TypeName(v))
		}
		in.def(p.Name, v, p.T, lib)
		if p.This && set != nil {
			set(p.Name, v)
		}
	}
	if k < len(args) || used < len(named) {
		throw("NoSuchMethodError", "%s is called with %d arguments and %d named ones", what, len(args), len(named))
	}
}

// invoke runs a body.
func (fr *frame) run(what string, body *Node, async bool, ret *Type, in *env) any {
	fr.step()
	if fr.w.depth++; fr.w.depth > 4000 {
		fr.w.depth = 0
		throw("StackOverflowError", "%s calls itself without end", what)
	}
	at := fr.w.depth
	defer func() { fr.w.depth = at - 1 }()
	want := ret
	if async {
		want = elemType(ret, 0)
	}
	saved := fr.ret
	fr.ret = want
	defer func() { fr.ret = saved }()
	_, v := fr.exec(body, in)
	if async {
		if f, ok := v.(*Future); ok {
			v = f.V
		}
		if !fits(v, want, fr.lib) {
			throw("TypeError", "%s returns %s of type %s, not %s", what, Show(v), TypeName(v), want)
		}
		return &Future{V: v}
	}
	if body.K == "arrow" && ret != nil && ret.Name == "void" {
		return nil
	}
	if !fits(v, ret, fr.lib) {
		throw("TypeError", "%s returns %s of type %s, not %s", what, Show(v), TypeName(v), ret)
	}
	return v
}

// method runs a function or method.
func (fr *frame) method(m *Member, this *Obj, args []any, named map[string]any, from *Node) any {
	name := m.Name
	if m.Class != nil {
		name = m.Class.Name + "." + name
	}
	if m.Body == nil {
		throw("NoSuchMethodError", "%s has no body", name)
	}
	in := sub(nil)
	fr.bind(name, m.Params, args, named, m.Lib, in, from, nil)
	f := &frame{w: fr.w, lib: m.Lib, cls: m.Class, this: this}
	ret := m.T
	if m.Kind == "set" {
		ret = nil
	}
	if m.Kind == "factory" {
		ret = &Type{Name: m.Class.Name}
	}
	return f.run(name, m.Body, m.Async, ret, in)
}

// create runs a constructor.
func (fr *frame) create(c *Class, name string, args []any, named map[string]any, from *Node) any {
	m := c.ctor(name)
	if m == nil {
		throw("NoSuchMethodError", "%s: %s has no constructor %s", fr.at(from), c.Name, name)
	}
	if m.Kind == "factory" {
		return fr.method(m, nil, args, named, from)
	}
	if c.Abstract {
		throw("AbstractClassInstantiationError", "%s: %s", fr.at(from), c.Name)
	}
	o := &Obj{C: c, F: map[string]any{}}
	fr.construct(o, c, m, args, named, from)
	return o
}

func (fr *frame) construct(o *Obj, c *Class, m *Member, args []any, named map[string]any, from *Node) {
	fr.step()
	f := &frame{w: fr.w, lib: c.Lib, cls: c, this: o}
	in := sub(nil)
	for _, p := range m.Params {
		if p.This && p.T == nil {
			for _, x := range c.Members {
				if x.Kind == "field" && x.Name == p.Name {
					p.T = x.T
				}
			}
		}
	}
	for _, x := range c.Members {
		if x.Kind == "field" && !x.Static {
			if x.Init != nil {
				o.F[x.Name] = f.store(f.eval(x.Init, sub(nil), x.T), x.T, c.Lib, from, x.Name)
			} else if _, ok := o.F[x.Name]; !ok {
				o.F[x.Name] = nil
			}
		}
	}
	fr.bind(c.Name, m.Params, args, named, c.Lib, in, from, func(n string, v any) { o.F[n] = v })
	var super *Node
	for _, i := range m.Inits {
		if i.K == "superinit" {
			super = i
			continue
		}
		var t *Type
		for _, x := range c.Members {
			if x.Kind == "field" && x.Name == i.S {
				t = x.T
			}
		}
		o.F[i.S] = f.store(f.eval(i.A, in, t), t, c.Lib, i, i.S)
	}
	if c.Extends != nil {
		d, _, _, _ := c.Lib.find(c.Extends.Name)
		if d != nil {
			s := &Node{Pos: m.Pos}
			if super != nil {
				s = super
			}
			sm := d.ctor(s.S)
			if sm == nil {
				throw("NoSuchMethodError", "%s has no constructor %s", d.Name, s.S)
			}
			a, nm := f.evalArgs(s, in, sm.Params)
			f.construct(o, d, sm, a, nm, s)
		} else {
			want := 0
			if c.Extends.Name == "ServerClient" {
				want = 1
			}
			var a []any
			if super != nil {
				a, _ = f.evalArgs(super, in, nil)
			}
			if len(a) != want {
				throw("NoSuchMethodError", "the constructor of %s is called with %d arguments", c.Extends.Name, len(a))
			}
			if want == 1 {
				o.F[" client"] = a[0]
			}
		}
	}
	if m.Body != nil {
		f.run(c.Name, m.Body, false, nil, in)
	}
}

// call calls a function value.
func (fr *frame) call(v any, args []any, named map[string]any, from *Node) any {
	c, ok := v.(*Closure)
	if !ok {
		throw("NoSuchMethodError", "%s: %s is not a function", fr.at(from), TypeName(v))
	}
	if c.Native != nil {
		return c.Native(args, named)
	}
	in := sub(c.env)
	f := *c.fr
	fr.bind("a closure", c.P, args, named, c.fr.lib, in, from, nil)
	return f.run("a closure", c.Body, c.Async, c.Ret, in)
}

func (fr *frame) tearoff(m *Member, this *Obj, n *Node) *Closure {
	return &Closure{P: m.Params, fr: fr, Native: func(args []any, named map[string]any) any {
		if m.Kind == "ctor" || m.Kind == "factory" {
			return fr.create(m.Class, m.Name, args, named, n)
		}
		return fr.method(m, this, args, named, n)
	}}
}

func (fr *frame) global(m *Member, n *Node) any {
	if m.Kind == "get" {
		return fr.method(m, nil, nil, nil, n)
	}
	if m.Kind == "method" {
		return fr.tearoff(m, nil, n)
	}
	switch m.done {
	case 1:
		throw("StackOverflowError", "the value of %s depends on itself", m.Name)
	case 0:
		m.done = 1
		f := &frame{w: fr.w, lib: m.Lib, cls: m.Class}
		if m.Init != nil {
			m.val = f.store(f.eval(m.Init, sub(nil), m.T), m.T, m.Lib, m.Init, m.Name)
		}
		m.done = 2
	}
	return m.val
}

func (fr *frame) statics(c *Class, name string, n *Node) any {
	for _, m := range c.Members {
		if m.Static && m.Name == name && m.Kind != "set" {
			return fr.global(m, n)
		}
	}
	if m := c.ctor(name); m != nil && name != "" {
		return fr.tearoff(m, nil, n)
	}
	throw("NoSuchMethodError", "%s: %s has no static member %s", fr.at(n), c.Name, name)
	return nil
}

// named finds the class an identifier names here.
func (fr *frame) named(n *Node, e *env) (c *Class, native string) {
	if n.K != "id" || e.find(n.S) != nil {
		return nil, ""
	}
	if fr.cls != nil && fr.has(n.S) {
		return nil, ""
	}
	c, m, b, _ := fr.lib.find(n.S)
	if c == nil && m == nil && b {
		native = n.S
	}
	return
}

func (fr *frame) has(name string) bool {
	for _, m := range fr.cls.Members {
		if m.Name == name && m.Kind != "ctor" && m.Kind != "factory" {
			return true
		}
	}
	if fr.this != nil {
		return fr.this.C.impl(name, false) != nil || fr.this.C.impl(name, true) != nil || name == "invoke" && fr.this.C.Is("ServerClient")
	}
	return false
}

func (fr *frame) ident(n *Node, e *env) any {
	if c := e.find(n.S); c != nil {
		return c.v
	}
	if fr.cls != nil {
		for _, m := range fr.cls.Members {
			if m.Static && m.Name == n.S && m.Kind != "set" {
				return fr.global(m, n)
			}
		}
		if fr.this != nil && fr.has(n.S) {
			return fr.get(fr.this, n.S, n)
		}
	}
	c, m, b, _ := fr.lib.find(n.S)
	switch {
	case m != nil:
		return fr.global(m, n)
	case c != nil:
		return &TypeVal{c.Name, c}
	case b:
		switch n.S {
		case "json", "utf8", "base64":
			return &Obj{N: n.S}
		}
		return &TypeVal{n.S, nil}
	}
	if fr.this != nil && objectMembers[n.S] {
		return fr.get(fr.this, n.S, n)
	}
	throw("NoSuchMethodError", "%s: %s is not defined", fr.at(n), n.S)
	return nil
}

func isLit(n *Node) bool { return n.K == "int" }

func (fr *frame) eval(n *Node, e *env, want *Type) any {
	v := fr.eval0(n, e, want)
	if v == any(short) {
		return nil
	}
	return v
}

// short is the value of a chain of selectors that a null before a ?. ended.
var short = &struct{ x int }{}

func (fr *frame) eval0(n *Node, e *env, want *Type) any {
	fr.step()
	switch n.K {
	case "null":
		return nil
	case "true":
		return true
	case "false":
		return false
	case "int":
		if want != nil && want.Name == "double" {
			return float64(n.Int)
		}
		return n.Int
	case "double":
		return n.F
	case "string":
		var s strings.Builder
		for i, p := range n.Parts {
			s.WriteString(p.text)
			if n.Sub[i] != nil {
				s.WriteString(fr.text(fr.eval(n.Sub[i], e, nil), n))
			}
		}
		return s.String()
	case "id":
		return fr.ident(n, e)
	case "this":
		if fr.this == nil {
			throw("Error", "%s: this outside an instance", fr.at(n))
		}
		return fr.this
	case "recv":
		return e.find(" recv").v
	case "paren":
		return fr.eval(n.A, e, want)
	case "await":
		v := fr.eval(n.A, e, nil)
		if f, ok := v.(*Future); ok {
			return f.V
		}
		return v
	case "throw":
		v := fr.eval(n.A, e, nil)
		panic(&Thrown{v, fr.text(v, n)})
	case "bang":
		v := fr.eval0(n.A, e, want)
		if v == any(short) {
			return v
		}
		if v == nil {
			throw("TypeError", "%s: null check operator used on null", fr.at(n))
		}
		return v
	case "cond":
		if fr.cond(n.A, e) {
			return fr.eval(n.B, e, want)
		}
		return fr.eval(n.C, e, want)
	case "is":
		return fits(fr.eval(n.A, e, nil), n.T, fr.lib)
	case "as":
		v := fr.eval(n.A, e, nil)
		if !fits(v, n.T, fr.lib) {
			throw("TypeError", "%s: %s is not of type %s", fr.at(n), TypeName(v), n.T)
		}
		return v
	case "unary":
		return fr.unary(n, e)
	case "post":
		v := fr.eval(n.A, e, nil)
		d := &Node{K: "int", Int: 1, Pos: n.Pos}
		fr.assign(&Node{K: "assign", S: n.S[:1] + "=", A: n.A, B: d, Pos: n.Pos}, e)
		return v
	case "binary":
		switch n.S {
		case "&&":
			return fr.cond(n.A, e) && fr.cond(n.B, e)
		case "||":
			return fr.cond(n.A, e) || fr.cond(n.B, e)
		case "??":
			if v := fr.eval(n.A, e, want); v != nil {
				return v
			}
			return fr.eval(n.B, e, want)
		}
		a := fr.eval(n.A, e, nil)
		b := fr.eval(n.B, e, nil)
		if _, ok := a.(float64); ok && isLit(n.B) && n.S != "==" && n.S != "!=" {
			b = float64(n.B.Int)
		}
		switch n.S {
		case "==":
			return fr.equal(a, b)
		case "!=":
			return !fr.equal(a, b)
		}
		return fr.operate(n, a, n.S, b)
	case "assign":
		return fr.assign(n, e)
	case "prop", "nprop":
		if n.A.K == "super" {
			return fr.superGet(n)
		}
		if c, native := fr.named(n.A, e); c != nil {
			return fr.statics(c, n.S, n)
		} else if native != "" && native != "json" && native != "utf8" && native != "base64" {
			return fr.nativeStatic(native, n)
		}
		v := fr.eval0(n.A, e, nil)
		if v == any(short) || v == nil && n.K == "nprop" {
			return short
		}
		return fr.get(v, n.S, n)
	case "index":
		v := fr.eval0(n.A, e, nil)
		if v == any(short) {
			return v
		}
		return fr.index(v, fr.eval(n.B, e, nil), n)
	case "call":
		return fr.callNode(n, e, want)
	case "new":
		c, _, _, _ := fr.lib.find(n.T.Name)
		if c != nil {
			m := c.ctor(n.S)
			var ps []*Param
			if m != nil {
				ps = m.Params
			}
			a, nm := fr.evalArgs(n, e, ps)
			return fr.create(c, n.S, a, nm, n)
		}
		a, nm := fr.evalArgs(n, e, nil)
		return fr.nativeNew(n.T.Name, n.S, a, nm, n.T.Args, n)
	case "list", "set":
		t := elemType(want, 0)
		if len(n.TA) > 0 {
			t = n.TA[0]
		}
		l := &List{V: []any{}}
		for _, x := range n.L {
			fr.element(x, e, func(x *Node, in *env) {
				l.V = append(l.V, fr.store(fr.eval(x, in, t), typeIf(n.TA, 0), fr.lib, x, "an element"))
			}, func(v any) {
				l.V = append(l.V, fr.store(v, typeIf(n.TA, 0), fr.lib, x, "an element"))
			}, nil)
		}
		return l
	case "map":
		if want != nil && want.Name == "Set" && len(n.L) == 0 && len(n.TA) == 0 {
			return &Set{V: []any{}}
		}
		kt, vt := elemType(want, 0), elemType(want, 1)
		if len(n.TA) == 2 {
			kt, vt = n.TA[0], n.TA[1]
		}
		m := &Map{}
		for _, x := range n.L {
			fr.element(x, e, nil, nil, func(k, v *Node, in *env, m2 *Map) {
				if m2 != nil {
					for i := range m2.K {
						m.Set(fr, m2.K[i], m2.V[i])
					}
					return
				}
				kv := fr.store(fr.eval(k, in, kt), typeIf(n.TA, 0), fr.lib, x, "a key")
				m.Set(fr, kv, fr.store(fr.eval(v, in, vt), typeIf(n.TA, 1), fr.lib, x, "a value"))
			})
		}
		return m
	case "lambda":
		f := *fr
		return &Closure{P: n.P, Body: n.A, Async: n.Async, env: e, fr: &f}
	case "cascade":
		v := fr.eval(n.A, e, nil)
		if v == nil && n.S == "?.." {
			return nil
		}
		in := sub(e)
		in.def(" recv", v, nil, nil)
		fr.eval(n.B, in, nil)
		return v
	}
	panic("dart: expression " + n.K)
}

func typeIf(ta []*Type, i int) *Type {
	if i < len(ta) {
		return ta[i]
	}
	return nil
}

func (fr *frame) element(n *Node, e *env, one func(*Node, *env), val func(any), entry func(k, v *Node, in *env, m *Map)) {
	switch n.K {
	case "elif":
		if fr.cond(n.A, e) {
			fr.element(n.B, e, one, val, entry)
		} else if n.C != nil {
			fr.element(n.C, e, one, val, entry)
		}
	case "forin":
		for _, x := range fr.iterate(fr.eval(n.A, e, nil), n.A) {
			in := sub(e)
			in.def(n.S, fr.store(x, n.T, fr.lib, n, n.S), n.T, fr.lib)
			fr.element(n.B, in, one, val, entry)
		}
	case "spread":
		v := fr.eval(n.A, e, nil)
		if v == nil && n.S == "...?" {
			return
		}
		if entry != nil {
			m, ok := v.(*Map)
			if !ok {
				throw("TypeError", "%s: %s is no Map", fr.at(n), TypeName(v))
			}
			entry(nil, nil, e, m)
			return
		}
		for _, x := range fr.iterate(v, n) {
			val(x)
		}
	case "entry":
		entry(n.A, n.B, e, nil)
	case "for":
		panic("dart: for element")
	default:
		if one == nil {
			throw("TypeError", "%s: an element in a map", fr.at(n))
		}
		one(n, e)
	}
}

func (fr *frame) assign(n *Node, e *env) any {
	old := func(v any) any {
		if n.S == "=" {
			return nil
		}
		return v
	}
	value := func(cur any, t *Type) (any, bool) {
		switch n.S {
		case "=":
			return fr.eval(n.B, e, t), true
		case "??=":
			if cur != nil {
				return cur, false
			}
			return fr.eval(n.B, e, t), true
		}
		return fr.operate(n, cur, strings.TrimSuffix(n.S, "="), fr.eval(n.B, e, t)), true
	}
	switch n.A.K {
	case "id":
		if c := e.find(n.A.S); c != nil {
			v, ok := value(old(c.v), c.t)
			if ok {
				c.v = fr.store(v, c.t, c.lib, n, n.A.S)
			}
			return v
		}
		if fr.cls != nil {
			for _, m := range fr.cls.Members {
				if m.Static && m.Name == n.A.S && m.Kind == "field" {
					var cur any
					if n.S != "=" {
						cur = fr.global(m, n)
					}
					v, ok := value(cur, m.T)
					if ok {
						m.val, m.done = fr.store(v, m.T, m.Lib, n, m.Name), 2
					}
					return v
				}
			}
		}
		if fr.this != nil {
			var cur any
			if n.S != "=" {
				cur = fr.get(fr.this, n.A.S, n)
			}
			v, ok := value(cur, fr.setType(fr.this, n.A.S))
			if ok {
				fr.set(fr.this, n.A.S, v, n)
			}
			return v
		}
		throw("NoSuchMethodError", "%s: %s is not defined", fr.at(n), n.A.S)
	case "prop", "nprop":
		o := fr.eval0(n.A.A, e, nil)
		if o == any(short) || o == nil && n.A.K == "nprop" {
			return nil
		}
		var cur any
		if n.S != "=" {
			cur = fr.get(o, n.A.S, n)
		}
		v, ok := value(cur, fr.setType(o, n.A.S))
		if ok {
			fr.set(o, n.A.S, v, n)
		}
		return v
	case "index":
		o := fr.eval(n.A.A, e, nil)
		k := fr.eval(n.A.B, e, nil)
		var cur any
		if n.S != "=" {
			cur = fr.index(o, k, n)
		}
		v, ok := value(cur, nil)
		if ok {
			switch x := o.(type) {
			case *Map:
				x.Set(fr, k, v)
			case *List:
				i, is := k.(int64)
				if !is || i < 0 || i >= int64(len(x.V)) {
					throw("RangeError", "%s: index %s", fr.at(n), Show(k))
				}
				x.V[i] = v
			default:
				throw("NoSuchMethodError", "%s: %s[]=", fr.at(n), TypeName(o))
			}
		}
		return v
	}
	panic("dart: assignment")
}

func (fr *frame) setType(v any, name string) *Type {
	o, ok := v.(*Obj)
	if !ok || o.C == nil {
		return nil
	}
	if m := o.C.impl(name, true); m != nil {
		return typeOf(m)
	}
	return nil
}

func (fr *frame) set(v any, name string, x any, n *Node) {
	o, ok := v.(*Obj)
	if !ok {
		throw("NoSuchMethodError", "%s: %s has no setter %s", fr.at(n), TypeName(v), name)
	}
	if o.C == nil {
		o.F[name] = x
		return
	}
	m := o.C.impl(name, true)
	if m == nil {
		throw("NoSuchMethodError", "%s: %s has no setter %s", fr.at(n), o.C.Name, name)
	}
	if m.Kind == "set" {
		fr.method(m, o, []any{x}, nil, n)
		return
	}
	o.F[name] = fr.store(x, m.T, m.Lib, n, name)
}

func (fr *frame) superGet(n *Node) any {
	if fr.this == nil || fr.cls == nil || fr.cls.Extends == nil {
		throw("NoSuchMethodError", "%s: super.%s", fr.at(n), n.S)
	}
	d, _, _, _ := fr.cls.Lib.find(fr.cls.Extends.Name)
	if d == nil {
		throw("NoSuchMethodError", "%s: super.%s", fr.at(n), n.S)
	}
	m := d.impl(n.S, false)
	if m == nil {
		throw("NoSuchMethodError", "%s: super.%s", fr.at(n), n.S)
	}
	return fr.member(m, fr.this, n)
}

func (fr *frame) member(m *Member, o *Obj, n *Node) any {
	switch m.Kind {
	case "field":
		v, ok := o.F[m.Name]
		if m.Late && m.Init == nil && !ok {
			throw("LateInitializationError", "%s", m.Name)
		}
		return v
	case "get":
		return fr.method(m, o, nil, nil, n)
	}
	return fr.tearoff(m, o, n)
}

// get reads a property of a value.
func (fr *frame) get(v any, name string, n *Node) any {
	if o, ok := v.(*Obj); ok && o.C != nil {
		if m := o.C.impl(name, false); m != nil {
			return fr.member(m, o, n)
		}
		switch name {
		case "hashCode":
			return int64(len(o.C.Name))
		case "runtimeType":
			return &TypeVal{o.C.Name, o.C}
		}
		if name == "toString" {
			return &Closure{Native: func([]any, map[string]any) any { return "Instance of '" + o.C.Name + "'" }}
		}
		if x, ok := o.F[" "+name]; ok {
			return x
		}
		throw("NoSuchMethodError", "%s: %s has no member %s", fr.at(n), o.C.Name, name)
	}
	return fr.nativeGet(v, name, n)
}

func (fr *frame) callNode(n *Node, e *env, want *Type) any {
	f := n.A
	if f.K == "id" {
		if c, native := fr.named(f, e); c != nil {
			m := c.ctor("")
			var ps []*Param
			if m != nil {
				ps = fr.thisTypes(c, m)
			}
			a, nm := fr.evalArgs(n, e, ps)
			return fr.create(c, "", a, nm, n)
		} else if native != "" {
			a, nm := fr.evalArgs(n, e, nil)
			return fr.nativeNew(native, "", a, nm, n.TA, n)
		}
		if e.find(f.S) == nil && fr.this != nil && f.S == "invoke" && fr.this.C.Is("ServerClient") && fr.this.C.impl("invoke", false) == nil {
			a, nm := fr.evalArgs(n, e, nil)
			return fr.host("ServerClient.invoke", fr.this, a, nm, n.TA, n)
		}
	}
	if (f.K == "prop" || f.K == "nprop") && f.A.K != "super" {
		if c, native := fr.named(f.A, e); c != nil {
			var ps []*Param
			for _, m := range c.Members {
				if m.Static && m.Name == f.S {
					ps = m.Params
				}
			}
			if m := c.ctor(f.S); m != nil && f.S != "" {
				ps = fr.thisTypes(c, m)
			}
			a, nm := fr.evalArgs(n, e, ps)
			for _, m := range c.Members {
				if m.Static && m.Name == f.S && m.Kind == "method" {
					return fr.method(m, nil, a, nm, n)
				}
			}
			if m := c.ctor(f.S); m != nil {
				return fr.create(c, f.S, a, nm, n)
			}
			return fr.call(fr.statics(c, f.S, n), a, nm, n)
		} else if native != "" && native != "json" && native != "utf8" && native != "base64" {
			a, nm := fr.evalArgs(n, e, nil)
			return fr.nativeNew(native, f.S, a, nm, n.TA, n)
		}
		v := fr.eval0(f.A, e, nil)
		if v == any(short) || v == nil && f.K == "nprop" {
			return short
		}
		if o, ok := v.(*Obj); ok && o.C != nil {
			if m := o.C.impl(f.S, false); m != nil && m.Kind == "method" {
				a, nm := fr.evalArgs(n, e, m.Params)
				return fr.method(m, o, a, nm, n)
			}
			a, nm := fr.evalArgs(n, e, nil)
			return fr.call(fr.get(v, f.S, n), a, nm, n)
		}
		a, nm := fr.evalArgs(n, e, nil)
		return fr.nativeCall(v, f.S, a, nm, n)
	}
	fv := fr.eval(f, e, nil)
	var ps []*Param
	if c, ok := fv.(*Closure); ok {
		ps = c.P
	}
	a, nm := fr.evalArgs(n, e, ps)
	return fr.call(fv, a, nm, n)
}

func (fr *frame) thisTypes(c *Class, m *Member) []*Param {
	for _, p := range m.Params {
		if p.This && p.T == nil {
			for _, x := range c.Members {
				if x.Kind == "field" && x.Name == p.Name {
					p.T = x.T
				}
			}
		}
	}
	return m.Params
}

func (fr *frame) host(name string, this *Obj, args []any, named map[string]any, ta []*Type, n *Node) any {
	if fr.w.Host != nil {
		if v, ok := fr.w.Host(name, this, args, named, ta); ok {
			return v
		}
	}
	throw("NoSuchMethodError", "%s: %s", fr.at(n), name)
	return nil
}

// Entry points for the outside.

func (w *World) frame(file string) *frame { return &frame{w: w, lib: w.Libs[file]} }

var none = &Node{}

// Class finds a class of a file.
func (w *World) Class(file, name string) *Class {
	if l := w.Libs[file]; l != nil {
		return l.Classes[name]
	}
	return nil
}

// Static calls a static method or reads a static value (args nil).
func (w *World) Static(c *Class, name string, args []any) (any, error) {
	return Try(func() any {
		fr := &frame{w: w, lib: c.Lib}
		v := fr.statics(c, name, none)
		if args == nil {
			return v
		}
		return fr.call(v, args, nil, none)
	})
}

// New runs a constructor.
func (w *World) New(c *Class, name string, args []any, named map[string]any) (any, error) {
	return Try(func() any { return (&frame{w: w, lib: c.Lib}).create(c, name, args, named, none) })
}

// Func calls a function of a file.
func (w *World) Func(l *Lib, name string, args []any) (any, error) {
	return Try(func() any {
		m := l.Tops[name]
		if m == nil {
			throw("NoSuchMethodError", "%s", name)
		}
		return (&frame{w: w, lib: l}).method(m, nil, args, nil, none)
	})
}

// Get reads a member of an object.
func (w *World) Get(o any, name string) (any, error) {
	return Try(func() any { return w.any().get(o, name, none) })
}

// Set writes a member of an object.
func (w *World) Set(o any, name string, v any) error {
	_, err := Try(func() any { w.any().set(o, name, v, none); return nil })
	return err
}

// Call calls a method of a value, or the value itself when name is empty.
func (w *World) Call(o any, name string, args []any, named map[string]any) (any, error) {
	return Try(func() any {
		fr := w.any()
		if name == "" {
			return fr.call(o, args, named, none)
		}
		if x, ok := o.(*Obj); ok && x.C != nil {
			return fr.call(fr.get(o, name, none), args, named, none)
		}
		return fr.nativeCall(o, name, args, named, none)
	})
}

// Equal is the == of two values.
func (w *World) Equal(a, b any) (bool, error) {
	v, err := Try(func() any { return w.any().equal(a, b) })
	return v == true, err
}

func (w *World) any() *frame {
	for _, l := range w.Libs {
		return &frame{w: w, lib: l}
	}
	return &frame{w: w, lib: &Lib{World: w, File: "-"}}
}
