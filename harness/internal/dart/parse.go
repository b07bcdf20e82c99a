package dart

import (
	"math/big"
	"strconv"
	"strings"
)

type parser struct {
	file string
	src  string
	t    []tok
	i    int
	lib  *Lib
}

var reserved = map[string]bool{"assert": true, "break": true, "case": true, "catch": true, "class": true, "const": true, "continue": true, "default": true, "do": true, "else": true, "enum": true, "extends": true,
	"false": true, "final": true, "finally": true, "for": true, "if": true, "in": true, "is": true, "new": true, "null": true, "rethrow": true, "return": true, "super": true, "switch": true, "this": true, "throw": true,
	"true": true, "try": true, "var": true, "void": true, "while": true, "with": true}

// Reserved says whether a word cannot name anything in Dart.
func Reserved(s string) bool { return reserved[s] }

func (p *parser) fail(f string, a ...any) {
	(&lexer{file: p.file, src: p.src}).fail(p.t[p.i].pos, f, a...)
}
func (p *parser) cur() tok { return p.t[p.i] }
func (p *parser) next() tok {
	t := p.t[p.i]
	if t.k != tEOF {
		p.i++
	}
	return t
}
func (p *parser) show() string {
	t := p.cur()
	switch t.k {
	case tEOF:
		return "the end of the file"
	case tString:
		return "a string"
	}
	return "'" + t.s + "'"
}
func (p *parser) is(s string) bool {
	t := p.cur()
	return (t.k == tPunct || t.k == tIdent) && t.s == s
}
func (p *parser) peek(n int, s string) bool {
	if p.i+n >= len(p.t) {
		return false
	}
	t := p.t[p.i+n]
	return (t.k == tPunct || t.k == tIdent) && t.s == s
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) expect(s string) tok {
	if !p.is(s) {
		p.fail("expected '%s', found %s", s, p.show())
	}
	return p.next()
}
func (p *parser) ident(what string) string {
	t := p.cur()
	if t.k != tIdent || reserved[t.s] {
		p.fail("expected %s, found %s", what, p.show())
	}
	p.i++
	return t.s
}

// Parse reads a file.
func Parse(file, src string) (lib *Lib, err error) {
	defer func() {
		if x := recover(); x != nil {
			if e, ok := x.(*SyntaxError); ok {
				err = e
				return
			}
			panic(x)
		}
	}()
	p := &parser{file: file, src: src, t: lex(file, src)}
	lib = &Lib{File: file, Src: src, Classes: map[string]*Class{}, Tops: map[string]*Member{}}
	p.lib = lib
	for p.is("import") || p.is("library") || p.is("export") || p.is("part") {
		if !p.is("import") {
			p.fail("%s directive", p.cur().s)
		}
		p.next()
		t := p.cur()
		if t.k != tString || len(t.parts) != 1 || t.parts[0].expr != "" {
			p.fail("expected a library, found %s", p.show())
		}
		p.next()
		p.expect(";")
		lib.Imports = append(lib.Imports, t.parts[0].text)
	}
	for p.cur().k != tEOF {
		meta := p.metadata()
		if p.is("class") || p.is("abstract") {
			c := p.class()
			if lib.Classes[c.Name] != nil || lib.Tops[c.Name] != nil {
				p.i--
				p.fail("%s is declared twice", c.Name)
			}
			lib.Classes[c.Name] = c
			lib.Order = append(lib.Order, c)
			continue
		}
		for _, m := range p.member(nil) {
			m.Meta, m.Static, m.Lib = meta, true, lib
			if lib.Classes[m.Name] != nil || lib.Tops[m.Name] != nil {
				p.i--
				p.fail("%s is declared twice", m.Name)
			}
			if (m.Kind == "method" || m.Kind == "get") && m.Body == nil {
				p.i--
				p.fail("function %s has no body", m.Name)
			}
			lib.Tops[m.Name] = m
		}
	}
	return lib, nil
}

func (p *parser) metadata() (out []string) {
	for p.accept("@") {
		n := p.ident("an annotation")
		if p.is("(") {
			p.args()
		}
		out = append(out, n)
	}
	return
}

func (p *parser) tparams() (out []string) {
	if p.accept("<") {
		for {
			out = append(out, p.ident("a type parameter"))
			if p.accept("extends") {
				p.typ()
			}
			if !p.accept(",") {
				break
			}
		}
		p.expect(">")
	}
	return
}

func (p *parser) types() (out []*Type) {
	for {
		out = append(out, p.typ())
		if !p.accept(",") {
			return
		}
	}
}

func (p *parser) class() *Class {
	c := &Class{Lib: p.lib, Pos: p.cur().pos}
	c.Abstract = p.accept("abstract")
	p.expect("class")
	c.Name = p.ident("a class name")
	c.TParams = p.tparams()
	if p.accept("extends") {
		c.Extends = p.typ()
	}
	if p.accept("with") {
		c.With = p.types()
	}
	if p.accept("implements") {
		c.Impl = p.types()
	}
	p.expect("{")
	seen := map[string]bool{}
	for !p.accept("}") {
		meta := p.metadata()
		at := p.i
		for _, m := range p.member(c) {
			m.Meta, m.Class, m.Lib = meta, c, p.lib
			k := m.Name
			switch m.Kind {
			case "set":
				k += "="
			case "ctor", "factory":
				k = "new " + k
			case "field":
				if !m.Final && !m.Const {
					if seen[k+"="] {
						p.i = at
						p.fail("%s.%s is declared twice", c.Name, m.Name)
					}
					seen[k+"="] = true
				}
			}
			if seen[k] {
				p.i = at
				p.fail("%s.%s is declared twice", c.Name, m.Name)
			}
			if m.Kind != "ctor" && m.Kind != "factory" && m.Name == c.Name {
				p.i = at
				p.fail("%s has a member of its own name", c.Name)
			}
			seen[k] = true
			c.Members = append(c.Members, m)
		}
	}
	return c
}

// member reads a member of class c, or a top-level declaration when c is nil.
func (p *parser) member(c *Class) []*Member {
	m := &Member{Pos: p.cur().pos}
	for {
		switch {
		case (p.is("static") || p.is("late") || p.is("external") || p.is("covariant")) && p.t[p.i+1].k == tIdent:
			switch p.next().s {
			case "static":
				if c == nil {
					p.fail("static outside a class")
				}
				m.Static = true
			case "late":
				m.Late = true
			case "external":
				p.fail("external")
			}
			continue
		case p.is("final"):
			p.next()
			m.Final = true
			continue
		case p.is("const"):
			p.next()
			m.Const = true
			continue
		case p.is("var"):
			p.next()
			m.T = &Type{Name: "dynamic"}
			return p.fields(m)
		}
		break
	}
	// constructors
	if c != nil && !m.Static && !m.Final {
		fac := p.is("factory") && p.t[p.i+1].k == tIdent
		off := 0
		if fac {
			off = 1
		}
		if p.peek(off, c.Name) && (p.peek(off+1, "(") || p.peek(off+1, ".") && p.peek(off+3, "(")) {
			p.i += off + 1
			m.Kind = "ctor"
			if fac {
				m.Kind = "factory"
			}
			if p.accept(".") {
				m.Name = p.ident("a constructor name")
			}
			m.Params = p.params(true)
			if m.Kind == "ctor" && p.accept(":") {
				for {
					m.Inits = append(m.Inits, p.initializer())
					if !p.accept(",") {
						break
					}
				}
			}
			if p.is(";") {
				p.next()
				if fac {
					p.fail("factory without a body")
				}
			} else {
				p.body(m)
			}
			return []*Member{m}
		}
		if fac {
			p.fail("factory does not name its class")
		}
	}
	if m.Const && c != nil && !m.Static {
		p.fail("a const member that is neither static nor a constructor")
	}
	if (m.Final || m.Const) && p.t[p.i].k == tIdent && (p.peek(1, "=") || p.peek(1, ";") || p.peek(1, ",")) {
		return p.fields(m)
	}
	accessor := func() bool {
		if (p.is("get") || p.is("set")) && p.t[p.i+1].k == tIdent {
			m.Kind = p.next().s
			m.Name = p.ident("a member name")
			if m.Kind == "set" {
				m.Params = p.params(false)
				if len(m.Params) != 1 || m.Params[0].Named || m.Params[0].Optional {
					p.fail("a setter takes one parameter")
				}
			}
			p.body(m)
			return true
		}
		return false
	}
	if accessor() {
		return []*Member{m}
	}
	// [Type] name(...)  or  Type name [= ...]
	if p.t[p.i].k == tIdent && !reserved[p.cur().s] && !p.is("Function") && (p.peek(1, "(") || p.is("operator") && p.t[p.i+1].k == tPunct) {
		m.T = &Type{Name: "dynamic"}
	} else {
		m.T = p.typ()
		if accessor() {
			return []*Member{m}
		}
	}
	if p.is("operator") && p.t[p.i+1].k == tPunct {
		p.next()
		o := p.next().s
		if o == "[" {
			p.expect("]")
			o = "[]"
			if p.accept("=") {
				o = "[]="
			}
		}
		m.Kind, m.Name = "method", o
		m.Params = p.params(false)
		p.body(m)
		return []*Member{m}
	}
	if p.t[p.i].k == tIdent && (p.peek(1, "(") || p.peek(1, "<")) {
		m.Kind, m.Name = "method", p.ident("a name")
		m.TParams = p.tparams()
		m.Params = p.params(false)
		p.body(m)
		return []*Member{m}
	}
	return p.fields(m)
}

func (p *parser) fields(m *Member) (out []*Member) {
	for {
		f := *m
		f.Kind = "field"
		f.Pos = p.cur().pos
		f.Name = p.ident("a name")
		if p.accept("=") {
			f.Init = p.expr()
		}
		if f.Init == nil && f.Const {
			p.fail("constant %s has no value", f.Name)
		}
		out = append(out, &f)
		if !p.accept(",") {
			break
		}
	}
	p.expect(";")
	return
}

func (p *parser) initializer() *Node {
	pos := p.cur().pos
	if p.accept("super") {
		n := &Node{K: "superinit", Pos: pos}
		if p.accept(".") {
			n.S = p.ident("a constructor name")
		}
		n.L, n.Named = p.args()
		return n
	}
	if p.accept("this") {
		if p.is("(") {
			p.fail("redirecting constructor")
		}
		p.expect(".")
	}
	n := &Node{K: "fieldinit", Pos: pos, S: p.ident("a field")}
	p.expect("=")
	n.A = p.binary(0)
	return n
}

func (p *parser) params(ctor bool) (out []*Param) {
	p.expect("(")
	seen := map[string]bool{}
	mode := ""
	for !p.is(")") {
		if mode == "" && (p.is("{") || p.is("[")) {
			mode = p.next().s
		}
		q := &Param{Named: mode == "{", Optional: mode == "[", Pos: p.cur().pos}
		p.metadata()
		for {
			switch {
			case p.is("required") && p.t[p.i+1].k == tIdent:
				p.next()
				if !q.Named {
					p.fail("required positional parameter")
				}
				q.Required = true
				continue
			case p.is("final"), p.is("covariant") && p.t[p.i+1].k == tIdent:
				p.next()
				continue
			case p.is("var"):
				p.next()
				q.T = &Type{Name: "dynamic"}
				continue
			}
			break
		}
		if p.is("this") && p.peek(1, ".") {
			if !ctor {
				p.fail("field parameter outside a constructor")
			}
			p.i += 2
			q.This = true
			q.Name = p.ident("a field")
		} else if q.T == nil && p.t[p.i].k == tIdent && (p.peek(1, ",") || p.peek(1, ")") || p.peek(1, "}") || p.peek(1, "]") || p.peek(1, "=")) {
			q.Name = p.ident("a parameter")
			q.T = &Type{Name: "dynamic"}
		} else {
			if q.T == nil {
				q.T = p.typ()
			}
			if p.is("this") && p.peek(1, ".") && ctor {
				p.i += 2
				q.This = true
			}
			q.Name = p.ident("a parameter")
			if p.is("(") { // void f(int a)
				ps := p.params(false)
				q.T = &Type{Name: "Function", Fn: true, Ret: q.T, Par: ps, Null: p.accept("?")}
			}
		}
		if mode != "" && (p.accept("=") || q.Named && p.accept(":")) {
			q.Def = p.expr()
		}
		if seen[q.Name] {
			p.fail("parameter %s is declared twice", q.Name)
		}
		seen[q.Name] = true
		out = append(out, q)
		if !p.accept(",") {
			break
		}
		if mode == "{" && p.is("}") || mode == "[" && p.is("]") {
			break
		}
	}
	switch mode {
	case "{":
		if len(out) == 0 || !out[len(out)-1].Named {
			p.fail("empty parameter group")
		}
		p.expect("}")
	case "[":
		if len(out) == 0 || !out[len(out)-1].Optional {
			p.fail("empty parameter group")
		}
		p.expect("]")
	}
	p.expect(")")
	return
}

// body reads what follows a signature.
func (p *parser) body(m *Member) {
	if p.accept(";") {
		return
	}
	if p.accept("async") {
		m.Async = true
	}
	if p.is("=>") {
		pos := p.next().pos
		m.Body = &Node{K: "arrow", A: p.expr(), Pos: pos}
		p.expect(";")
		return
	}
	m.Body = p.block()
}

// typ reads a type.
func (p *parser) typ() *Type {
	pos := p.cur().pos
	var t *Type
	if p.is("Function") && (p.peek(1, "(") || p.peek(1, "<")) {
		t = &Type{Name: "dynamic", Pos: pos}
	} else {
		t = &Type{Pos: pos}
		if p.accept("void") {
			t.Name = "void"
		} else {
			t.Name = p.ident("a type")
		}
		if p.is("<") {
			p.next()
			t.Args = p.types()
			p.expect(">")
		}
		if p.is("?") && t.Name != "void" {
			p.next()
			t.Null = true
		}
	}
	for p.is("Function") && p.peek(1, "(") {
		p.next()
		f := &Type{Name: "Function", Fn: true, Ret: t, Pos: pos, Par: p.ftparams()}
		if p.accept("?") {
			f.Null = true
		}
		t = f
	}
	return t
}

// ftparams reads the parameters of a function type: names may be missing.
func (p *parser) ftparams() (out []*Param) {
	p.expect("(")
	mode := ""
	for !p.is(")") {
		if mode == "" && (p.is("{") || p.is("[")) {
			mode = p.next().s
		}
		q := &Param{Named: mode == "{", Optional: mode == "[", Pos: p.cur().pos}
		if p.is("required") && p.t[p.i+1].k == tIdent {
			p.next()
			q.Required = true
		}
		q.T = p.typ()
		if p.cur().k == tIdent {
			q.Name = p.ident("a parameter")
		} else if q.Named {
			p.fail("expected a parameter name, found %s", p.show())
		}
		out = append(out, q)
		if !p.accept(",") {
			break
		}
	}
	switch mode {
	case "{":
		p.expect("}")
	case "[":
		p.expect("]")
	}
	p.expect(")")
	return
}

// try runs f and undoes it when it fails or says no.
func (p *parser) try(f func() bool) (ok bool) {
	at := p.i
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(*SyntaxError); !is {
				panic(x)
			}
			ok = false
		}
		if !ok {
			p.i = at
		}
	}()
	return f()
}

func (p *parser) block() *Node {
	n := &Node{K: "block", Pos: p.cur().pos}
	p.expect("{")
	for !p.accept("}") {
		n.L = append(n.L, p.stmt())
	}
	return n
}

func (p *parser) stmt() *Node {
	pos := p.cur().pos
	switch {
	case p.is("{"):
		return p.block()
	case p.accept(";"):
		return &Node{K: "block", Pos: pos}
	case p.is("if"):
		p.next()
		p.expect("(")
		n := &Node{K: "if", Pos: pos, A: p.expr()}
		p.expect(")")
		n.B = p.stmt()
		if p.accept("else") {
			n.C = p.stmt()
		}
		return n
	case p.is("for"):
		return p.forStmt(func() *Node { return p.stmt() })
	case p.is("while"):
		p.next()
		p.expect("(")
		n := &Node{K: "while", Pos: pos, A: p.expr()}
		p.expect(")")
		n.B = p.stmt()
		return n
	case p.is("return"):
		p.next()
		n := &Node{K: "return", Pos: pos}
		if !p.is(";") {
			n.A = p.expr()
		}
		p.expect(";")
		return n
	case p.is("break"), p.is("continue"):
		n := &Node{K: p.next().s, Pos: pos}
		p.expect(";")
		return n
	case p.is("rethrow"):
		p.next()
		p.expect(";")
		return &Node{K: "rethrow", Pos: pos}
	case p.is("switch"):
		return p.switchStmt()
	case p.is("try"):
		p.next()
		n := &Node{K: "try", Pos: pos, A: p.block()}
		for p.is("catch") || p.is("on") {
			h := &Node{K: "handler", Pos: p.cur().pos}
			if p.accept("on") {
				h.T = p.typ()
			}
			if p.accept("catch") {
				p.expect("(")
				h.S = p.ident("a name")
				if p.accept(",") {
					p.ident("a name")
				}
				p.expect(")")
			}
			h.A = p.block()
			n.L = append(n.L, h)
		}
		if p.accept("finally") {
			n.B = p.block()
		}
		if n.L == nil && n.B == nil {
			p.fail("try without catch or finally")
		}
		return n
	case p.is("var"), p.is("final"), p.is("const") && p.t[p.i+1].k == tIdent && (p.t[p.i+2].k == tIdent || p.peek(2, "=")), p.is("late") && p.t[p.i+1].k == tIdent:
		n := p.localVar()
		p.expect(";")
		return n
	}
	// a typed declaration or a local function?
	if p.cur().k == tIdent && !p.is("await") && (!reserved[p.cur().s] || p.is("void")) {
		var n *Node
		at := p.i
		if p.try(func() bool {
			p.typ()
			if p.cur().k != tIdent || reserved[p.cur().s] || p.is("is") || p.is("as") {
				return false
			}
			p.next()
			return p.is("=") || p.is(";") || p.is(",") || p.is("(")
		}) {
			p.i = at
			t := p.typ()
			if p.peek(1, "(") {
				m := &Member{T: t, Name: p.ident("a name"), Kind: "method", Pos: pos}
				m.Params = p.params(false)
				p.body(m)
				if m.Body == nil {
					p.fail("local function %s has no body", m.Name)
				}
				return &Node{K: "localfn", S: m.Name, A: &Node{K: "lambda", P: m.Params, A: m.Body, Async: m.Async, Pos: pos}, Pos: pos}
			}
			n = p.varList(t, false, pos)
			p.expect(";")
			return n
		}
	}
	e := p.expr()
	p.expect(";")
	return &Node{K: "expr", A: e, Pos: pos}
}

func (p *parser) localVar() *Node {
	pos := p.cur().pos
	final := false
	p.accept("late")
	if p.is("final") || p.is("const") {
		p.next()
		final = true
	} else if p.accept("var") {
		return p.varList(nil, false, pos)
	}
	if p.cur().k == tIdent && (p.peek(1, "=") || p.peek(1, ";") || p.peek(1, "in") || p.peek(1, ",")) {
		return p.varList(nil, final, pos)
	}
	return p.varList(p.typ(), final, pos)
}

func (p *parser) varList(t *Type, final bool, pos int) *Node {
	n := &Node{K: "vars", T: t, Pos: pos}
	for {
		v := &Node{K: "var", T: t, Pos: p.cur().pos}
		v.S = p.ident("a variable")
		if p.accept("=") {
			v.A = p.expr()
		}
		if final {
			v.Int = 1
		}
		n.L = append(n.L, v)
		if !p.accept(",") {
			return n
		}
	}
}

// forStmt reads a for statement or a for element, whose body f reads.
func (p *parser) forStmt(f func() *Node) *Node {
	pos := p.next().pos
	p.expect("(")
	n := &Node{Pos: pos}
	at := p.i
	if p.is("var") || p.is("final") || p.try(func() bool { p.typ(); p.ident("a name"); return p.is("in") || p.is("=") }) {
		p.i = at
		v := p.localVarOrTyped()
		if p.accept("in") {
			n.K, n.S, n.T = "forin", v.L[0].S, v.T
			n.A = p.expr()
			p.expect(")")
			n.B = f()
			return n
		}
		n.L = []*Node{v}
	} else if !p.is(";") {
		n.L = []*Node{{K: "expr", A: p.expr(), Pos: pos}}
	}
	n.K = "for"
	p.expect(";")
	if !p.is(";") {
		n.A = p.expr()
	}
	p.expect(";")
	for !p.is(")") {
		n.Sub = append(n.Sub, p.expr())
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	n.B = f()
	return n
}

func (p *parser) localVarOrTyped() *Node {
	if p.is("var") || p.is("final") {
		return p.localVar()
	}
	pos := p.cur().pos
	return p.varList(p.typ(), false, pos)
}

func (p *parser) switchStmt() *Node {
	n := &Node{K: "switch", Pos: p.next().pos}
	p.expect("(")
	n.A = p.expr()
	p.expect(")")
	p.expect("{")
	for !p.accept("}") {
		c := &Node{K: "case", Pos: p.cur().pos}
		if p.accept("default") {
			c.K = "default"
		} else {
			p.expect("case")
			c.A = p.expr()
		}
		p.expect(":")
		for !p.is("case") && !p.is("default") && !p.is("}") {
			c.L = append(c.L, p.stmt())
		}
		n.L = append(n.L, c)
	}
	return n
}

// args reads call arguments.
func (p *parser) args() (pos, named []*Node) {
	p.expect("(")
	seen := map[string]bool{}
	for !p.is(")") {
		if p.cur().k == tIdent && p.peek(1, ":") {
			n := &Node{K: "arg", Pos: p.cur().pos, S: p.ident("an argument name")}
			p.next()
			n.A = p.expr()
			if seen[n.S] {
				p.fail("argument %s is given twice", n.S)
			}
			seen[n.S] = true
			named = append(named, n)
		} else {
			if len(named) > 0 {
				p.fail("positional argument after named ones")
			}
			pos = append(pos, p.expr())
		}
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	return
}

var assignOps = map[string]bool{"=": true, "+=": true, "-=": true, "*=": true, "/=": true, "~/=": true, "%=": true, "&=": true, "|=": true, "^=": true, "<<=": true, "??=": true}

func (p *parser) expr() *Node {
	pos := p.cur().pos
	if p.accept("throw") {
		return &Node{K: "throw", A: p.expr(), Pos: pos}
	}
	l := p.conditional()
	if t := p.cur(); t.k == tPunct && assignOps[t.s] {
		switch l.K {
		case "id", "prop", "index":
		default:
			p.fail("assignment to something that cannot be assigned")
		}
		p.next()
		return &Node{K: "assign", S: t.s, A: l, B: p.expr(), Pos: t.pos}
	}
	for p.is("..") || p.is("?..") {
		c := &Node{K: "cascade", A: l, Pos: p.cur().pos, S: p.next().s}
		// the section is written like a postfix expression on the receiver
		recv := &Node{K: "recv", Pos: c.Pos}
		var e *Node
		if p.is("[") {
			e = p.postfixFrom(recv, true)
		} else {
			e = &Node{K: "prop", A: recv, S: p.ident("a member"), Pos: c.Pos}
			e = p.postfixFrom(e, true)
		}
		if t := p.cur(); t.k == tPunct && assignOps[t.s] {
			p.next()
			e = &Node{K: "assign", S: t.s, A: e, B: p.conditional(), Pos: t.pos}
		}
		c.B = e
		l = c
	}
	return l
}

func (p *parser) conditional() *Node {
	c := p.binary(0)
	if p.is("?") {
		pos := p.next().pos
		n := &Node{K: "cond", A: c, Pos: pos}
		n.B = p.expr()
		p.expect(":")
		n.C = p.expr()
		return n
	}
	return c
}

var levels = [][]string{{"??"}, {"||"}, {"&&"}, {"==", "!="}, {"<", ">", "<=", ">=", "is", "as"}, {"|"}, {"^"}, {"&"}, {"<<", ">>"}, {"+", "-"}, {"*", "/", "%", "~/"}}

func (p *parser) op(level int) (string, int) {
	t := p.cur()
	s := t.s
	if t.k != tPunct && !(t.k == tIdent && (s == "is" || s == "as")) {
		return "", 0
	}
	n := 1
	if s == ">" && p.i+1 < len(p.t) && p.t[p.i+1].k == tPunct && p.t[p.i+1].pos == t.end {
		switch p.t[p.i+1].s {
		case ">":
			s, n = ">>", 2
		case "=":
			s, n = ">=", 2
		}
	}
	for _, o := range levels[level] {
		if o == s {
			return s, n
		}
	}
	return "", 0
}

func (p *parser) binary(level int) *Node {
	if level == len(levels) {
		return p.unary()
	}
	l := p.binary(level + 1)
	for {
		o, n := p.op(level)
		if o == "" {
			return l
		}
		pos := p.cur().pos
		p.i += n
		switch o {
		case "is":
			neg := p.accept("!")
			l = &Node{K: "is", A: l, T: p.isType(), Pos: pos}
			if neg {
				l = &Node{K: "unary", S: "!", A: l, Pos: pos}
			}
			return l
		case "as":
			l = &Node{K: "as", A: l, T: p.isType(), Pos: pos}
			continue
		}
		r := p.binary(level + 1)
		l = &Node{K: "binary", S: o, A: l, B: r, Pos: pos}
		if level == 3 || level == 4 { // not associative
			if o2, _ := p.op(level); o2 != "" && o2 != "is" && o2 != "as" {
				p.fail("comparison of a comparison")
			}
			return l
		}
	}
}

// isType reads the type after is or as: a ? there may start a conditional.
func (p *parser) isType() *Type {
	at := p.i
	t := p.typ()
	if t.Null {
		// X ? a : b  or  X? ...
		switch c := p.cur(); {
		case c.k == tPunct && (c.s == ")" || c.s == ";" || c.s == "," || c.s == "]" || c.s == "}" || c.s == "?" || c.s == "&&" || c.s == "||" || c.s == ":" || c.s == "??"):
		default:
			p.i = at
			t = p.nonNull()
		}
	}
	return t
}

func (p *parser) nonNull() *Type {
	t := &Type{Pos: p.cur().pos, Name: p.ident("a type")}
	if p.accept("<") {
		t.Args = p.types()
		p.expect(">")
	}
	return t
}

func (p *parser) unary() *Node {
	t := p.cur()
	if t.k == tPunct {
		switch t.s {
		case "-", "!", "~", "++", "--":
			p.next()
			a := p.unary()
			if t.s == "-" && a.K == "int" {
				return &Node{K: "int", Int: -a.Int, Pos: t.pos}
			}
			return &Node{K: "unary", S: t.s, A: a, Pos: t.pos}
		}
	}
	if t.k == tIdent && t.s == "await" && !p.peek(1, ";") && !p.peek(1, ")") && !p.peek(1, ".") && !p.peek(1, "=") {
		p.next()
		return &Node{K: "await", A: p.unary(), Pos: t.pos}
	}
	return p.postfixFrom(p.primary(), false)
}

func (p *parser) postfixFrom(e *Node, cascade bool) *Node {
	for {
		t := p.cur()
		if t.k != tPunct {
			return e
		}
		switch t.s {
		case ".", "?.":
			p.next()
			k := "prop"
			if t.s == "?." {
				k = "nprop"
			}
			e = &Node{K: k, A: e, S: p.ident("a member"), Pos: t.pos}
		case "(":
			pos, named := p.args()
			e = &Node{K: "call", A: e, L: pos, Named: named, Pos: t.pos}
		case "[":
			p.next()
			e = &Node{K: "index", A: e, B: p.expr(), Pos: t.pos}
			p.expect("]")
		case "!":
			p.next()
			e = &Node{K: "bang", A: e, Pos: t.pos}
		case "++", "--":
			p.next()
			e = &Node{K: "post", S: t.s, A: e, Pos: t.pos}
		case "<":
			if e.K != "id" && e.K != "prop" && e.K != "nprop" {
				return e
			}
			var ta []*Type
			if !p.try(func() bool {
				p.next()
				ta = p.types()
				return p.accept(">") && p.is("(")
			}) {
				// f<>( is no comparison either
				if p.peek(1, ">") && p.peek(2, "(") {
					p.next()
					p.fail("expected a type, found %s", p.show())
				}
				return e
			}
			pos, named := p.args()
			e = &Node{K: "call", A: e, L: pos, Named: named, TA: ta, Pos: t.pos}
		default:
			return e
		}
	}
}

// closing finds the token that closes the bracket at i.
func (p *parser) closing(i int) int {
	depth := 0
	for ; i < len(p.t); i++ {
		if p.t[i].k == tPunct {
			switch p.t[i].s {
			case "(", "[", "{":
				depth++
			case ")", "]", "}":
				depth--
				if depth == 0 {
					return i
				}
			}
		}
	}
	p.fail("'%s' is never closed", p.cur().s)
	return 0
}

func (p *parser) primary() *Node {
	t := p.cur()
	n := &Node{Pos: t.pos}
	switch t.k {
	case tInt:
		p.next()
		n.K = "int"
		b, ok := new(big.Int).SetString(t.s, 0)
		if !ok {
			b, ok = new(big.Int).SetString(strings.TrimLeft(t.s, "0"), 10)
			if strings.Trim(t.s, "0") == "" {
				b, ok = new(big.Int), true
			}
		}
		if !ok {
			p.fail("malformed number %s", t.s)
		}
		switch {
		case b.IsInt64():
			n.Int = b.Int64()
		case b.IsUint64() && (strings.HasPrefix(t.s, "0x") || b.Cmp(new(big.Int).Lsh(big.NewInt(1), 63)) == 0):
			n.Int = int64(b.Uint64()) // 2^63 only stands after a minus
			if !strings.HasPrefix(t.s, "0x") && !(p.i >= 2 && p.t[p.i-2].s == "-") {
				p.fail("integer %s is out of range", t.s)
			}
		default:
			p.fail("integer %s is out of range", t.s)
		}
		return n
	case tDouble:
		p.next()
		n.K = "double"
		n.F, _ = strconv.ParseFloat(t.s, 64)
		return n
	case tString:
		n.K = "string"
		for p.cur().k == tString {
			for _, q := range p.next().parts {
				n.Parts = append(n.Parts, q)
				var sub *Node
				if q.expr != "" {
					s := &parser{file: p.file, src: p.src, t: lex(p.file, q.expr), lib: p.lib}
					for i := range s.t {
						s.t[i].pos += q.pos
					}
					sub = s.expr()
					if s.cur().k != tEOF {
						s.fail("unexpected %s in an interpolation", s.show())
					}
				}
				n.Sub = append(n.Sub, sub)
			}
		}
		return n
	case tPunct:
		switch t.s {
		case "(":
			c := p.closing(p.i)
			if after := p.t[c+1]; after.s == "=>" || after.s == "{" || after.k == tIdent && after.s == "async" {
				n.K = "lambda"
				n.P = p.params(false)
				n.Async = p.accept("async")
				if p.accept("=>") {
					n.A = &Node{K: "arrow", A: p.expr(), Pos: n.Pos}
				} else {
					n.A = p.block()
				}
				return n
			}
			p.next()
			e := p.expr()
			p.expect(")")
			return &Node{K: "paren", A: e, Pos: t.pos}
		case "[", "{":
			return p.collection(nil)
		case "<":
			p.next()
			ta := p.types()
			p.expect(">")
			if !p.is("[") && !p.is("{") {
				p.fail("expected a list or a map, found %s", p.show())
			}
			return p.collection(ta)
		}
	case tIdent:
		switch t.s {
		case "null", "true", "false", "this", "super":
			p.next()
			n.K = t.s
			return n
		case "const", "new":
			p.next()
			if p.is("[") || p.is("{") || p.is("<") {
				return p.primary()
			}
			ty := p.nonNull()
			n.K, n.T = "new", ty
			if p.accept(".") {
				n.S = p.ident("a constructor name")
			}
			n.L, n.Named = p.args()
			if t.s == "const" {
				n.Int = 1
			}
			return n
		}
		if !reserved[t.s] {
			p.next()
			n.K, n.S = "id", t.s
			// a lambda needs parentheses in Dart, so an identifier is just that
			return n
		}
	}
	p.fail("expected an expression, found %s", p.show())
	return nil
}

func (p *parser) collection(ta []*Type) *Node {
	t := p.next()
	n := &Node{K: "list", TA: ta, Pos: t.pos}
	end := "]"
	if t.s == "{" {
		end = "}"
		n.K = "map"
		if len(ta) == 1 {
			n.K = "set"
		}
	}
	if n.K == "list" && len(ta) > 1 || n.K == "map" && len(ta) != 0 && len(ta) != 2 {
		p.fail("wrong number of type arguments")
	}
	for !p.is(end) {
		n.L = append(n.L, p.element(n.K))
		if !p.accept(",") {
			break
		}
	}
	p.expect(end)
	if n.K == "map" && len(n.L) > 0 && len(ta) == 0 {
		// {a, b} is a set
		for _, e := range n.L {
			for e.K == "elif" || e.K == "forin" || e.K == "for" {
				e = e.B
			}
			if e.K != "entry" && e.K != "spread" {
				n.K = "set"
			}
		}
	}
	return n
}

func (p *parser) element(kind string) *Node {
	pos := p.cur().pos
	switch {
	case p.is("if"):
		p.next()
		p.expect("(")
		n := &Node{K: "elif", A: p.expr(), Pos: pos}
		p.expect(")")
		n.B = p.element(kind)
		if p.accept("else") {
			n.C = p.element(kind)
		}
		return n
	case p.is("for"):
		return p.forStmt(func() *Node { return p.element(kind) })
	case p.is("..."), p.is("...?"):
		n := &Node{K: "spread", S: p.next().s, Pos: pos}
		n.A = p.expr()
		return n
	}
	e := p.expr()
	if kind == "map" && p.accept(":") {
		return &Node{K: "entry", A: e, B: p.expr(), Pos: pos}
	}
	return e
}
