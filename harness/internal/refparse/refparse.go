// Package refparse is an independent recogniser of the schema grammar. From the
// reference token stream it decides whether a text is a schema and, if so, what
// it says, in the canonical form of package dump.
package refparse

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"

	"verif/harness/internal/reflex"
)

type Verdict int

const (
	Accept Verdict = iota
	Reject
	Unsure // a form the language documentation does not settle
)

type bad struct{ v Verdict }

type ps struct {
	t      []reflex.Tok
	i      int
	unsure bool
	out    strings.Builder
}

func (p *ps) k() string { return p.t[p.i].Kind }
func (p *ps) next() reflex.Tok {
	t := p.t[p.i]
	if t.Kind != "EOF" {
		p.i++
	}
	return t
}
func (p *ps) fail() { panic(bad{Reject}) }
func (p *ps) want(k string) reflex.Tok {
	if p.k() != k {
		p.fail()
	}
	return p.next()
}

// semi: a separator, which may be missing before a closing bracket.
func (p *ps) semi() {
	if p.k() == ")" || p.k() == "}" {
		return
	}
	p.want(";")
}

// Parse gives the verdict and, for Accept, the canonical form (without
// documentation).
func Parse(src []byte) (v Verdict, dump string) {
	toks, illegal := reflex.Lex(src, false)
	if len(illegal) > 0 {
		return Reject, ""
	}
	p := &ps{t: toks}
	defer func() {
		if e := recover(); e != nil {
			b, ok := e.(bad)
			if !ok {
				panic(e)
			}
			v, dump = b.v, ""
			if p.unsure {
				v = Unsure
			}
		}
	}()
	p.file()
	if p.unsure {
		return Unsure, ""
	}
	return Accept, p.out.String()
}

func unq(l string) string { return l[1 : len(l)-1] }

func (p *ps) file() {
	pk := map[string]string{}
	var names []string
	for p.k() == "package" {
		p.next()
		n := ""
		if p.k() == "IDENT" {
			n = p.next().Lit
		} else {
			p.unsure = true
		}
		p.want("=")
		s := p.want("STRING")
		p.semi()
		if _, ok := pk[n]; ok {
			p.unsure = true
		} else {
			names = append(names, n)
		}
		pk[n] = unq(s.Lit)
	}
	for _, n := range sorted(names) {
		fmt.Fprintf(&p.out, "package %s %q\n", n, pk[n])
	}
	for p.k() == "import" {
		p.next()
		s := p.want("STRING")
		if !importable(s.Lit) {
			p.fail()
		}
		p.semi()
		fmt.Fprintf(&p.out, "import %q\n", unq(s.Lit))
	}
	for p.k() != "EOF" {
		tags := p.tags()
		switch p.k() {
		case "data":
			p.data(tags)
		case "enum":
			p.enum(tags)
		case "server":
			p.server(tags)
		default:
			p.fail()
		}
	}
}

func importable(lit string) bool {
	s, err := strconv.Unquote(lit)
	if err != nil || s == "" {
		return false
	}
	for _, r := range s {
		if !unicode.IsGraphic(r) || unicode.IsSpace(r) || strings.ContainsRune("!\"#$%&'()*,:;<=>?[\\]^{|}`\uFFFD", r) {
			return false
		}
	}
	return true
}

func sorted(s []string) []string {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
	return s
}

func (p *ps) tags() string {
	out := ""
	for p.k() == "[" {
		p.next()
		out += "[" + p.want("IDENT").Lit + ":"
		p.want(":")
		if p.k() == "]" {
			p.unsure = true
		}
		first := true
		sep := true
		for p.k() != "]" {
			if !first && !sep {
				p.unsure = true // no separator between keys
			}
			first = false
			out += " " + p.want("IDENT").Lit + "="
			p.want("=")
			out += fmt.Sprintf("%q", unq(p.want("STRING").Lit))
			for p.k() == "," {
				p.next()
				out += fmt.Sprintf(",%q", unq(p.want("STRING").Lit))
			}
			sep = false
			if p.k() == ";" {
				p.next()
				sep = true
			}
		}
		p.next()
		p.semi()
		out += "]"
	}
	return out
}

func (p *ps) ext() string {
	out := ""
	n := 0
	for p.k() == ":" || p.k() == "," {
		if n == 0 && p.k() == "," {
			p.fail()
		}
		if n > 0 && p.k() == ":" {
			p.unsure = true
		}
		n++
		p.next()
		out += " :" + p.want("IDENT").Lit
		p.want("=")
		out += "=" + p.want("INT").Lit
	}
	return out
}

func (p *ps) typ() string {
	out := p.want("IDENT").Lit
	if p.k() == "?" {
		p.next()
		out += "?"
	}
	switch p.k() {
	case "[":
		p.next()
		p.want("]")
		out += "[]"
		if p.k() == "?" {
			p.next()
			out += "?"
		}
	case "<":
		p.next()
		k := p.typ()
		p.want(">")
		if strings.ContainsAny(k, "?[<") {
			p.unsure = true
		}
		out += "<" + k + ">"
		if p.k() == "?" {
			p.next()
			out += "?"
		}
	}
	return out
}

func (p *ps) end() {
	if p.k() == "=" {
		p.unsure = true
	}
	p.semi()
}

func (p *ps) data(tags string) {
	p.next()
	fmt.Fprintf(&p.out, "%sdata %s%s\n", tags, p.want("IDENT").Lit, p.ext())
	p.want("{")
	for p.k() != "}" {
		tg := p.tags()
		t := p.typ()
		n := p.want("IDENT").Lit
		p.want("=")
		id := p.want("INT").Lit
		if p.k() == "STRING" {
			p.unsure = true
			p.next()
		}
		p.semi()
		fmt.Fprintf(&p.out, " %s%s %s %s\n", tg, t, n, id)
	}
	p.next()
	p.end()
}

func (p *ps) enum(tags string) {
	p.next()
	fmt.Fprintf(&p.out, "%senum %s\n", tags, p.want("IDENT").Lit)
	p.want("{")
	for p.k() != "}" {
		tg := p.tags()
		n := p.want("IDENT").Lit
		p.want("=")
		id := p.want("INT").Lit
		p.semi()
		fmt.Fprintf(&p.out, " %s%s %s\n", tg, n, id)
	}
	p.next()
	p.end()
}

func (p *ps) mtype() string {
	t := p.typ()
	if strings.ContainsAny(t, "[<") {
		p.fail()
	}
	return t
}

func (p *ps) server(tags string) {
	p.next()
	fmt.Fprintf(&p.out, "%sserver %s%s\n", tags, p.want("IDENT").Lit, p.ext())
	p.want("{")
	for p.k() != "}" {
		tg := p.tags()
		r := p.mtype()
		n := p.want("IDENT").Lit
		p.want("(")
		pt := p.mtype()
		pn := p.want("IDENT").Lit
		p.want(")")
		p.want("=")
		id := p.want("INT").Lit
		p.semi()
		fmt.Fprintf(&p.out, " %s%s %s(%s %s) %s\n", tg, r, n, pt, pn, id)
	}
	p.next()
	p.end()
}
