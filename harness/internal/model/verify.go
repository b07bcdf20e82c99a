package model

import (
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

// Verdict is what verification says about a value: the format it breaks first, or nil.
func (bf BoundField) Verdict(v any) *Format {
	fs := bf.Decl.File.Formats(bf.Field)
	if len(fs) == 0 {
		return nil
	}
	t := bf.Type
	if t.IsNull() {
		null := v == nil
		if t.Cont == None && t.Elem.Kind == KBase && t.Elem.Base == String && v == "" {
			null = true
		}
		if null {
			if fs[0].Null {
				return nil
			}
			return &fs[0]
		}
	}
	if t.Cont != None || t.Elem.Kind == KData {
		return nil
	}
	for i := range fs {
		if !fs[i].allows(t.Elem, v) {
			return &fs[i]
		}
	}
	return nil
}

func (f *Format) allows(x Ref, v any) bool {
	if x.Kind == KEnum {
		for _, it := range x.Enum.Items {
			if strconv.Itoa(it.Value) == v {
				return true
			}
		}
		return false
	}
	cmp := func(a, b string) int {
		p, ok := new(big.Rat).SetString(a)
		q, ok2 := new(big.Rat).SetString(b)
		if !ok || !ok2 {
			panic("bound " + a + " " + b)
		}
		return p.Cmp(q)
	}
	switch x.Base {
	case Bool:
		return true
	case String:
		s := v.(string)
		n := strconv.Itoa(utf8.RuneCountInString(s))
		if f.Min != "" && cmp(n, f.Min) < 0 || f.Max != "" && cmp(n, f.Max) > 0 {
			return false
		}
		return f.Reg == "" || regexp.MustCompile(f.Reg).MatchString(s)
	case Date:
		if f.Min != "" && cmp(v.(string), Millis(f.Min)) < 0 || f.Max != "" && cmp(v.(string), Millis(f.Max)) > 0 {
			return false
		}
		return true
	}
	return !(f.Min != "" && cmp(v.(string), f.Min) < 0 || f.Max != "" && cmp(v.(string), f.Max) > 0)
}

// Millis is a date bound in milliseconds.
func Millis(s string) string {
	t, err := time.Parse("2006-01-02T15:04:05Z", s)
	if err != nil {
		panic(err)
	}
	return strconv.FormatInt(t.UnixMilli(), 10)
}

var regTexts = []string{"abc", "123", "12", "a_B9", "abc\n", "axc", "a\nc", "xyy", "", `"q"`, "me@host.com", "a/b", "a//b", "no blanks", "'", `\`, `\\`, "$1", "A", "AA", "é", "日本", "😀", "a c"}

var tiny = new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Exp(big.NewInt(10), big.NewInt(22), nil))

// VerifyVal is a value for a member at or around what its formats demand.
func (r *Rng) VerifyVal(bf BoundField, depth int) any {
	t := bf.Type
	fs := bf.Decl.File.Formats(bf.Field)
	if t.Cont != None || t.Elem.Kind == KData || len(fs) == 0 {
		return r.TypeVal(t, depth)
	}
	if t.Elem.Null && r.P(0.15) {
		return nil
	}
	f := Pick(r, fs)
	if t.Elem.Kind == KEnum {
		if r.P(0.3) || len(t.Elem.Enum.Items) == 0 {
			return strconv.Itoa(Pick(r, []int{0, 1, 2, 3, -1, 7, 1001}))
		}
		return strconv.Itoa(Pick(r, t.Elem.Enum.Items).Value)
	}
	b := t.Elem.Base
	bound := f.Min
	if bound == "" || f.Max != "" && r.P(0.5) {
		bound = f.Max
	}
	if b == String {
		if f.Reg != "" && r.P(0.6) {
			return Pick(r, regTexts)
		}
		if bound != "" {
			if r.P(0.1) {
				return ""
			}
			n, _ := strconv.Atoi(bound)
			n += r.Range(-1, 1)
			if n < 0 {
				n = 0
			}
			return strings.Repeat(Pick(r, []string{"a", "é", "日", "😀", "x"}), n)
		}
		v := Pick(r, append(regTexts, stringPool...))
		for _, f := range fs {
			if f.Reg != "" && strings.ContainsAny(v, "\r\u2028\u2029") {
				return "abc" // whether '.' matches these depends on the dialect
			}
		}
		return v
	}
	if b == Bool || bound == "" || r.P(0.15) {
		return r.baseVal(b)
	}
	if b == Date {
		bound = Millis(bound)
	}
	q, _ := new(big.Rat).SetString(bound)
	var d *big.Rat
	switch b {
	case Float, Double:
		d = big.NewRat(int64(r.Range(-2, 2)), 8)
	case Decimal:
		d = Pick(r, []*big.Rat{new(big.Rat), big.NewRat(1, 100), big.NewRat(-1, 100), big.NewRat(1, 1000000), big.NewRat(-1, 1000000), big.NewRat(1, 1), tiny, new(big.Rat).Neg(tiny)})
	default:
		d = big.NewRat(int64(r.Range(-1, 1)), 1)
	}
	q.Add(q, d)
	switch b {
	case Float, Double:
		x, _ := q.Float64()
		if b == Double && r.P(0.3) {
			x, _ = new(big.Rat).Sub(q, d).Float64()
			x = math.Nextafter(x, Pick(r, []float64{math.Inf(1), math.Inf(-1)}))
		}
		bits := 64
		if b == Float {
			bits = 32
		}
		return strconv.FormatFloat(x, 'g', -1, bits)
	case Decimal:
		s := q.FloatString(24)
		return strings.TrimSuffix(strings.TrimRight(s, "0"), ".")
	}
	if rg, ok := intRange[b]; ok {
		lo, _ := new(big.Rat).SetString(rg[0])
		hi, _ := new(big.Rat).SetString(rg[1])
		if q.Cmp(lo) < 0 {
			q = lo
		}
		if q.Cmp(hi) > 0 {
			q = hi
		}
	}
	return q.Num().String()
}
