// Package reflex is an independent definition of the token stream of an hbuf
// source: given the whole text it computes which tokens a lexer must return.
package reflex

import (
	"strings"
	"unicode"
	"unicode/utf8"
)

type Tok struct {
	Kind string // ILLEGAL EOF COMMENT IDENT INT STRING, or the operator / keyword text
	Off  int
	End  int
	Lit  string // exact text (carriage returns stripped where the language strips them); "\n" for an automatic separator
}

type lx struct {
	src  []byte
	bad  []int // offsets of illegal constructs
	semi bool
}

var keywords = map[string]bool{"import": true, "package": true, "data": true, "server": true, "enum": true}

func (l *lx) rune(i int) (rune, int) {
	if i >= len(l.src) {
		return -1, 0
	}
	r, w := utf8.DecodeRune(l.src[i:])
	return r, w
}

func letter(r rune) bool {
	return r == '_' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= 0x80 && unicode.IsLetter(r)
}
func digit(r rune) bool { return r >= '0' && r <= '9' || r >= 0x80 && unicode.IsDigit(r) }

// Lex gives the expected stream, and the offsets of illegal constructs (empty
// iff no error may be reported).
func Lex(src []byte, comments bool) ([]Tok, []int) {
	l := &lx{src: src}
	i := 0
	if strings.HasPrefix(string(src), "\ufeff") {
		i = 3
	}
	for j := 0; j < len(src); {
		r, w := utf8.DecodeRune(src[j:])
		if r == 0 || r == utf8.RuneError && w == 1 || r == 0xfeff && j > 0 {
			l.bad = append(l.bad, j)
		}
		j += w
	}
	var out []Tok
	emit := func(k string, from, to int, lit string) { out = append(out, Tok{k, from, to, lit}) }
	for {
		// blanks
		for i < len(src) && (src[i] == ' ' || src[i] == '\t' || src[i] == '\r' || src[i] == '\n' && !l.semi) {
			i++
		}
		if i >= len(src) {
			if l.semi {
				emit(";", i, i, "\n")
			}
			emit("EOF", i, i, "")
			return out, l.bad
		}
		c := src[i]
		r, w := l.rune(i)
		switch {
		case c == '\n':
			emit(";", i, i+1, "\n")
			l.semi = false
			i++
		case letter(r):
			j := i
			for {
				q, w := l.rune(j)
				if q < 0 || !letter(q) && !digit(q) {
					break
				}
				j += w
			}
			t := string(src[i:j])
			if keywords[t] {
				emit(t, i, j, t)
				l.semi = false
			} else {
				emit("IDENT", i, j, t)
				l.semi = true
			}
			i = j
		case c >= '0' && c <= '9':
			j := l.number(i)
			emit("INT", i, j, string(src[i:j]))
			l.semi = true
			i = j
		case c == '"':
			j := l.str(i)
			emit("STRING", i, j, string(src[i:j]))
			l.semi = true
			i = j
		case c == '`':
			k := strings.IndexByte(string(src[i+1:]), '`')
			j := len(src)
			if k >= 0 {
				j = i + 1 + k + 1
			} else {
				l.bad = append(l.bad, i)
			}
			emit("STRING", i, j, strings.ReplaceAll(string(src[i:j]), "\r", ""))
			l.semi = true
			i = j
		case strings.IndexByte("=?<([{,;:", c) >= 0:
			lit := ""
			if c == ';' {
				lit = ";"
			}
			emit(string(c), i, i+1, lit)
			l.semi = false
			i++
		case strings.IndexByte(">)]}", c) >= 0:
			emit(string(c), i, i+1, "")
			l.semi = true
			i++
		case c == '/' && i+1 < len(src) && (src[i+1] == '/' || src[i+1] == '*'):
			if l.semi && l.lineEndsAfter(i) {
				emit(";", i, i, "\n")
				l.semi = false
			}
			j, ok := l.commentEnd(i)
			if !ok {
				l.bad = append(l.bad, i)
			}
			if comments {
				emit("COMMENT", i, j, "")
			}
			l.semi = false
			i = j
		default:
			if !(r == 0xfeff) {
				l.bad = append(l.bad, i)
			}
			emit("ILLEGAL", i, i+w, string(r))
			i += w
		}
	}
}

// commentEnd: offset after the comment starting at i.
func (l *lx) commentEnd(i int) (int, bool) {
	if l.src[i+1] == '/' {
		k := strings.IndexByte(string(l.src[i:]), '\n')
		if k < 0 {
			return len(l.src), true
		}
		return i + k, true
	}
	k := strings.Index(string(l.src[i+2:]), "*/")
	if k < 0 {
		return len(l.src), false
	}
	return i + 2 + k + 2, true
}

// lineEndsAfter: does the line end (or the file) come before the next token,
// looking through comments from i on?
func (l *lx) lineEndsAfter(i int) bool {
	for {
		if i+1 >= len(l.src) || l.src[i] != '/' || l.src[i+1] != '/' && l.src[i+1] != '*' {
			return false
		}
		if l.src[i+1] == '/' {
			return true
		}
		j, _ := l.commentEnd(i)
		if strings.IndexByte(string(l.src[i:j]), '\n') >= 0 {
			return true
		}
		i = j
		for i < len(l.src) && (l.src[i] == ' ' || l.src[i] == '\t' || l.src[i] == '\r') {
			i++
		}
		if i >= len(l.src) || l.src[i] == '\n' {
			return true
		}
	}
}

func (l *lx) number(i int) int {
	s := l.src
	j := i
	base := 10
	if s[j] == '0' {
		base = 8
		j++
		if j < len(s) {
			switch s[j] | 0x20 {
			case 'x':
				base = 16
			case 'o':
				base = 80
			case 'b':
				base = 2
			}
		}
		if base != 8 {
			j++
		}
		if base == 80 {
			base = 8
		}
	}
	from := j
	isd := func(c byte) bool {
		if c >= '0' && c <= '9' {
			return true
		}
		c |= 0x20
		return base == 16 && c >= 'a' && c <= 'f'
	}
	digits, wrong := 0, false
	for j < len(s) && (isd(s[j]) || s[j] == '_') {
		if s[j] != '_' {
			digits++
			if base < 10 && int(s[j]-'0') >= base {
				wrong = true
			}
		}
		j++
	}
	prefixed := from == i+2
	if prefixed && digits == 0 {
		wrong = true
	}
	// '_' only between digits (a prefix counts as one)
	t := string(s[i:j])
	if strings.Contains(t, "__") || strings.HasSuffix(t, "_") {
		wrong = true
	}
	if wrong {
		l.bad = append(l.bad, i)
	}
	return j
}

func (l *lx) str(i int) int {
	s := l.src
	j := i + 1
	for {
		if j >= len(s) || s[j] == '\n' {
			l.bad = append(l.bad, i)
			return j
		}
		c := s[j]
		j++
		if c == '"' {
			return j
		}
		if c == '\\' {
			j = l.escape(j)
		}
	}
}

// escape checks the escape whose backslash is before j; a wrong one ends at the
// first offending character.
func (l *lx) escape(j int) int {
	s := l.src
	if j >= len(s) {
		l.bad = append(l.bad, j-1)
		return j
	}
	n, base, max := 0, uint64(16), uint64(unicode.MaxRune)
	start := j
	switch c := s[j]; {
	case strings.IndexByte("abfnrtv\\\"", c) >= 0:
		return j + 1
	case c >= '0' && c <= '7':
		n, base, max = 3, 8, 255
	case c == 'x':
		n, max = 2, 255
		j++
	case c == 'u':
		n = 4
		j++
	case c == 'U':
		n = 8
		j++
	default:
		l.bad = append(l.bad, j)
		return j
	}
	v := uint64(0)
	for ; n > 0; n-- {
		d := uint64(99)
		if j < len(s) {
			switch c := s[j]; {
			case c >= '0' && c <= '9':
				d = uint64(c - '0')
			case c >= 'a' && c <= 'f':
				d = uint64(c-'a') + 10
			case c >= 'A' && c <= 'F':
				d = uint64(c-'A') + 10
			}
		}
		if d >= base {
			l.bad = append(l.bad, j)
			return j
		}
		v = v*base + d
		j++
	}
	if v > max || v >= 0xD800 && v < 0xE000 {
		l.bad = append(l.bad, start)
	}
	return j
}
