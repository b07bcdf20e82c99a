// Package dart reads and runs the part of the Dart language that hbuf's output uses:
// a lexer, a parser, a resolver of names and an interpreter with run-time type checks.
package dart

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

type tkind int

const (
	tEOF tkind = iota
	tIdent
	tInt
	tDouble
	tString
	tPunct
)

type part struct {
	text string
	expr string // Dart source of an interpolated expression
	pos  int
}

type tok struct {
	k     tkind
	s     string
	parts []part
	pos   int
	end   int
}

// SyntaxError is a defect of the text itself.
type SyntaxError struct {
	File string
	Line int
	Msg  string
}

func (e *SyntaxError) Error() string { return fmt.Sprintf("%s:%d: %s", e.File, e.Line, e.Msg) }

type lexer struct {
	file string
	src  string
	base int
	toks []tok
}

func (l *lexer) fail(pos int, f string, a ...any) {
	panic(&SyntaxError{l.file, 1 + strings.Count(l.src[:min(pos, len(l.src))], "\n"), fmt.Sprintf(f, a...)})
}

func identStart(c byte) bool {
	return c == '_' || c == '$' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}
func digit(c byte) bool { return c >= '0' && c <= '9' }
func hex(c byte) bool {
	return digit(c) || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

var puncts = []string{"...?", "<<=", "??=", "...", "?..", "~/=", "..", "?.", "??", "=>", "==", "!=", "<=", "&&", "||", "++", "--", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "~/", "<<",
	"(", ")", "[", "]", "{", "}", "<", ">", ",", ";", ":", "?", "!", ".", "=", "+", "-", "*", "/", "%", "&", "|", "^", "~", "@", "#"}

func lex(file, src string) []tok {
	l := &lexer{file: file, src: src}
	if !utf8.ValidString(src) {
		l.fail(0, "not valid UTF-8")
	}
	i := 0
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "//"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case strings.HasPrefix(src[i:], "/*"):
			depth, j := 1, i+2
			for depth > 0 {
				switch {
				case j >= len(src):
					l.fail(i, "unterminated comment")
				case strings.HasPrefix(src[j:], "/*"):
					depth++
					j += 2
				case strings.HasPrefix(src[j:], "*/"):
					depth--
					j += 2
				default:
					j++
				}
			}
			i = j
		case c == 'r' && i+1 < len(src) && (src[i+1] == '"' || src[i+1] == '\''):
			i = l.str(i, i+1, true)
		case identStart(c):
			j := i
			for j < len(src) && (identStart(src[j]) || digit(src[j])) {
				j++
			}
			l.toks = append(l.toks, tok{k: tIdent, s: src[i:j], pos: i, end: j})
			i = j
		case digit(c) || c == '.' && i+1 < len(src) && digit(src[i+1]):
			i = l.num(i)
		case c == '"' || c == '\'':
			i = l.str(i, i, false)
		default:
			ok := false
			for _, p := range puncts {
				if strings.HasPrefix(src[i:], p) {
					l.toks = append(l.toks, tok{k: tPunct, s: p, pos: i, end: i + len(p)})
					i += len(p)
					ok = true
					break
				}
			}
			if !ok {
				r, _ := utf8.DecodeRuneInString(src[i:])
				l.fail(i, "illegal character %q", r)
			}
		}
	}
	l.toks = append(l.toks, tok{k: tEOF, pos: len(src), end: len(src)})
	return l.toks
}

func (l *lexer) num(i int) int {
	src, j := l.src, i
	at := func(k int) byte {
		if k < len(src) {
			return src[k]
		}
		return 0
	}
	k := tInt
	if src[j] == '0' && (at(j+1) == 'x' || at(j+1) == 'X') {
		j += 2
		for hex(at(j)) {
			j++
		}
		if j == i+2 {
			l.fail(i, "hexadecimal number without digits")
		}
	} else {
		for digit(at(j)) {
			j++
		}
		if at(j) == '.' && digit(at(j+1)) {
			k = tDouble
			j++
			for digit(at(j)) {
				j++
			}
		}
		if at(j) == 'e' || at(j) == 'E' {
			m := j + 1
			if at(m) == '+' || at(m) == '-' {
				m++
			}
			if !digit(at(m)) {
				l.fail(i, "malformed number")
			}
			for digit(at(m)) {
				m++
			}
			k, j = tDouble, m
		}
	}
	if identStart(at(j)) {
		l.fail(i, "malformed number")
	}
	l.toks = append(l.toks, tok{k: k, s: src[i:j], pos: i, end: j})
	return j
}

// str lexes a string literal whose quote is at q.
func (l *lexer) str(start, q int, raw bool) int {
	src := l.src
	quote := src[q : q+1]
	if strings.HasPrefix(src[q:], strings.Repeat(quote, 3)) {
		quote = strings.Repeat(quote, 3)
	}
	i := q + len(quote)
	if len(quote) == 3 { // a line end right after the opening quotes does not count
		j := i
		for j < len(src) && (src[j] == ' ' || src[j] == '\t') {
			j++
		}
		if j < len(src) && src[j] == '\n' {
			i = j + 1
		}
	}
	var parts []part
	var b strings.Builder
	flush := func() {
		if b.Len() > 0 {
			parts = append(parts, part{text: b.String()})
			b.Reset()
		}
	}
	for {
		if i >= len(src) || len(quote) == 1 && src[i] == '\n' {
			l.fail(start, "unterminated string")
		}
		if strings.HasPrefix(src[i:], quote) {
			flush()
			l.toks = append(l.toks, tok{k: tString, parts: parts, pos: start, end: i + len(quote)})
			return i + len(quote)
		}
		c := src[i]
		switch {
		case !raw && c == '\\':
			i++
			if i >= len(src) {
				l.fail(start, "unterminated string")
			}
			switch e := src[i]; e {
			case 'n':
				b.WriteByte('\n')
			case 'r':
				b.WriteByte('\r')
			case 't':
				b.WriteByte('\t')
			case 'b':
				b.WriteByte('\b')
			case 'f':
				b.WriteByte('\f')
			case 'v':
				b.WriteByte('\v')
			case 'x':
				if i+2 >= len(src) || !hex(src[i+1]) || !hex(src[i+2]) {
					l.fail(i, "malformed escape")
				}
				var r rune
				fmt.Sscanf(src[i+1:i+3], "%x", &r)
				b.WriteRune(r)
				i += 2
			case 'u':
				j := i + 1
				h := ""
				if j < len(src) && src[j] == '{' {
					e := strings.IndexByte(src[j:], '}')
					if e < 2 || e > 7 {
						l.fail(i, "malformed escape")
					}
					h, j = src[j+1:j+e], j+e+1
				} else if j+4 <= len(src) {
					h, j = src[j:j+4], j+4
				}
				if h == "" || strings.Trim(h, "0123456789abcdefABCDEF") != "" {
					l.fail(i, "malformed escape")
				}
				var r rune
				fmt.Sscanf(h, "%x", &r)
				b.WriteRune(r)
				i = j - 1
			case '\n':
				l.fail(i, "escaped line end")
			default:
				r, n := utf8.DecodeRuneInString(src[i:])
				b.WriteRune(r)
				i += n - 1
			}
			i++
		case !raw && c == '$':
			flush()
			if i+1 < len(src) && src[i+1] == '{' {
				depth, j := 1, i+2
				for depth > 0 {
					if j >= len(src) {
						l.fail(i, "unterminated interpolation")
					}
					switch src[j] {
					case '{':
						depth++
					case '}':
						depth--
					}
					j++
				}
				parts = append(parts, part{expr: src[i+2 : j-1], pos: i + 2})
				i = j
			} else {
				j := i + 1
				for j < len(src) && (identStart(src[j]) && src[j] != '$' || j > i+1 && digit(src[j])) {
					j++
				}
				if j == i+1 {
					l.fail(i, "a $ that interpolates nothing")
				}
				parts = append(parts, part{expr: src[i+1 : j], pos: i + 1})
				i = j
			}
		default:
			b.WriteByte(c)
			i++
		}
	}
}
