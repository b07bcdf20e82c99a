package dart

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode/utf16"
	"unicode/utf8"
)

// Decimal is a number of package:decimal.
type Decimal struct{ R *big.Rat }

// DateTime is a point in time, in microseconds.
type DateTime struct {
	Us  int64
	UTC bool
}

// Find gives the position of a key.
func (m *Map) find(fr *frame, k any) int {
	for i, x := range m.K {
		if fr.equal(x, k) {
			return i
		}
	}
	return -1
}

// Set stores a value.
func (m *Map) Set(fr *frame, k, v any) {
	if i := m.find(fr, k); i >= 0 {
		m.V[i] = v
		return
	}
	m.K = append(m.K, k)
	m.V = append(m.V, v)
}

// Lookup reads the value of a string key.
func (m *Map) Lookup(k string) (any, bool) {
	for i, x := range m.K {
		if x == any(k) {
			return m.V[i], true
		}
	}
	return nil, false
}

func (fr *frame) equal(a, b any) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	switch x := a.(type) {
	case int64:
		switch y := b.(type) {
		case int64:
			return x == y
		case float64:
			return float64(x) == y
		}
		return false
	case float64:
		switch y := b.(type) {
		case int64:
			return x == float64(y)
		case float64:
			return x == y
		}
		return false
	case Int64:
		switch y := b.(type) {
		case Int64:
			return x == y
		case int64:
			return x.V == y
		}
		return false
	case *Decimal:
		y, ok := b.(*Decimal)
		return ok && x.R.Cmp(y.R) == 0
	case *TypeVal:
		y, ok := b.(*TypeVal)
		return ok && *x == *y
	case Entry:
		return false
	case *Obj:
		if x.C != nil {
			if m := x.C.impl("==", false); m != nil {
				v, ok := fr.method(m, x, []any{b}, nil, none).(bool)
				return ok && v
			}
		}
	}
	defer func() { recover() }()
	return a == b
}

// units is the length of a text in UTF-16.
func units(s string) int64 { return int64(len(utf16.Encode([]rune(s)))) }

func doubleText(f float64) string {
	switch {
	case math.IsNaN(f):
		return "NaN"
	case math.IsInf(f, 1):
		return "Infinity"
	case math.IsInf(f, -1):
		return "-Infinity"
	case f == 0:
		if math.Signbit(f) {
			return "-0.0"
		}
		return "0.0"
	}
	a := math.Abs(f)
	if a >= 1e21 || a < 1e-6 {
		s := strconv.FormatFloat(f, 'e', -1, 64)
		// 1e+21, 1e-7: no leading zeros in the exponent
		i := strings.IndexByte(s, 'e')
		exp := strings.TrimLeft(s[i+2:], "0")
		return s[:i+2] + exp
	}
	s := strconv.FormatFloat(f, 'f', -1, 64)
	if !strings.Contains(s, ".") {
		s += ".0"
	}
	return s
}

func (d *Decimal) String() string {
	if d.R.IsInt() {
		return d.R.Num().String()
	}
	// exact: the denominator only has factors 2 and 5
	k := 0
	for x := new(big.Rat).Set(d.R); !x.IsInt() && k < 5000; k++ {
		x.Mul(x, big.NewRat(10, 1))
	}
	return d.R.FloatString(k)
}

var decimalText = regexp.MustCompile(`^([+-]?\d*)(\.\d*)?([eE][+-]?\d+)?$`)

// ParseDecimal is Decimal.tryParse.
func ParseDecimal(s string) *Decimal {
	m := decimalText.FindStringSubmatch(s)
	if m == nil || strings.Trim(m[1], "+-") == "" && strings.Trim(m[2], ".") == "" {
		return nil
	}
	t := strings.Trim(m[1], "+")
	if strings.Trim(t, "-") == "" {
		t += "0"
	}
	if strings.Trim(m[2], ".") != "" {
		t += m[2]
	}
	if len(m[3]) > 6 {
		return nil
	}
	r, ok := new(big.Rat).SetString(t + m[3])
	if !ok {
		return nil
	}
	return &Decimal{r}
}

var (
	intText = regexp.MustCompile(`^[+-]?(\d+|0[xX][0-9a-fA-F]+)$`)
	numText = regexp.MustCompile(`^[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?)$`)
)

// ParseNum is num.tryParse.
func ParseNum(s string) any {
	s = strings.TrimSpace(s)
	if v := ParseInt(s); v != nil {
		return v
	}
	return ParseDouble(s)
}

// ParseInt is int.tryParse.
func ParseInt(s string) any {
	s = strings.TrimSpace(s)
	if !intText.MatchString(s) {
		return nil
	}
	neg := strings.HasPrefix(s, "-")
	t := strings.TrimLeft(s, "+-")
	b := new(big.Int)
	if strings.HasPrefix(t, "0x") || strings.HasPrefix(t, "0X") {
		b.SetString(t[2:], 16)
	} else {
		b.SetString(t, 10)
	}
	if neg {
		b.Neg(b)
	}
	if !b.IsInt64() {
		return nil
	}
	return b.Int64()
}

// ParseDouble is double.tryParse.
func ParseDouble(s string) any {
	s = strings.TrimSpace(s)
	switch strings.TrimLeft(s, "+-") {
	case "NaN":
		return math.NaN()
	case "Infinity":
		if s[0] == '-' {
			return math.Inf(-1)
		}
		return math.Inf(1)
	}
	if !numText.MatchString(s) {
		return nil
	}
	f, _ := strconv.ParseFloat(s, 64)
	return f
}

var dateText = regexp.MustCompile(`^([+-]?\d{4,6})-?(\d\d)-?(\d\d)(?:[ T](\d\d)(?::?(\d\d)(?::?(\d\d)(?:[.,](\d+))?)?)?( ?[zZ]| ?([-+])(\d\d)(?::?(\d\d))?)?)?$`)

// ParseDate is DateTime.tryParse; the local zone is UTC.
func ParseDate(s string) any {
	m := dateText.FindStringSubmatch(s)
	if m == nil {
		return nil
	}
	n := func(i int) int { v, _ := strconv.Atoi(m[i]); return v }
	us := 0
	if m[7] != "" {
		f := (m[7] + "000000")[:6]
		us, _ = strconv.Atoi(f)
	}
	t := time.Date(n(1), time.Month(n(2)), n(3), n(4), n(5), n(6), us*1000, time.UTC)
	v := t.UnixMicro()
	if m[9] != "" {
		off := int64(n(10)*60+n(11)) * 60_000_000
		if m[9] == "+" {
			off = -off
		}
		v += off
	}
	if v > 8_640_000_000_000_000_000 || v < -8_640_000_000_000_000_000 {
		return nil
	}
	return DateTime{v, m[8] != ""}
}

func (d DateTime) String() string {
	t := time.UnixMicro(d.Us).UTC()
	s := t.Format("2006-01-02 15:04:05.000")
	if d.Us%1000 != 0 {
		s = t.Format("2006-01-02 15:04:05.000000")
	}
	if y := t.Year(); y > 9999 || y < 0 {
		s = fmt.Sprintf("%+07d", y) + t.Format("-01-02 15:04:05.000")
	}
	if d.UTC {
		s += "Z"
	}
	return s
}

// text is toString().
func (fr *frame) text(v any, n *Node) string {
	if o, ok := v.(*Obj); ok && o.C != nil {
		s, ok := fr.call(fr.get(o, "toString", n), nil, nil, n).(string)
		if !ok {
			throw("TypeError", "toString returns no text")
		}
		return s
	}
	list := func(vs []any) string {
		var p []string
		for _, x := range vs {
			p = append(p, fr.text(x, n))
		}
		return strings.Join(p, ", ")
	}
	switch x := v.(type) {
	case *List:
		return "[" + list(x.V) + "]"
	case *Iter:
		return "(" + list(x.V) + ")"
	case *Map:
		var p []string
		for i := range x.K {
			p = append(p, fr.text(x.K[i], n)+": "+fr.text(x.V[i], n))
		}
		return "{" + strings.Join(p, ", ") + "}"
	}
	return Show(v)
}

// Show prints a value without running anything.
func Show(v any) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case bool:
		return strconv.FormatBool(x)
	case int64:
		return strconv.FormatInt(x, 10)
	case float64:
		return doubleText(x)
	case string:
		return x
	case Int64:
		return strconv.FormatInt(x.V, 10)
	case *Decimal:
		return x.String()
	case DateTime:
		return x.String()
	case *List:
		var p []string
		for _, y := range x.V {
			p = append(p, Show(y))
		}
		return "[" + strings.Join(p, ", ") + "]"
	case *Iter:
		var p []string
		for _, y := range x.V {
			p = append(p, Show(y))
		}
		return "(" + strings.Join(p, ", ") + ")"
	case *Map:
		var p []string
		for i := range x.K {
			p = append(p, Show(x.K[i])+": "+Show(x.V[i]))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case Entry:
		return "MapEntry(" + Show(x.K) + ": " + Show(x.V) + ")"
	case *TypeVal:
		return x.Name
	case *Closure:
		return "Closure"
	case *Obj:
		if x.C != nil {
			return "Instance of '" + x.C.Name + "'"
		}
		if m, ok := x.F["message"]; ok {
			return x.N + ": " + Show(m)
		}
		return "Instance of '" + x.N + "'"
	}
	return fmt.Sprintf("%T", v)
}

func (fr *frame) noMember(v any, name string, n *Node) {
	throw("NoSuchMethodError", "%s: %s has no member %s", fr.at(n), TypeName(v), name)
}

// nativeGet reads a property of a library value.
func (fr *frame) nativeGet(v any, name string, n *Node) any {
	switch name {
	case "hashCode":
		return int64(7)
	case "runtimeType":
		return &TypeVal{TypeName(v), nil}
	}
	switch x := v.(type) {
	case nil:
		fr.noMember(v, name, n)
	case string:
		switch name {
		case "length":
			return units(x)
		case "runes":
			var l []any
			for _, c := range x {
				l = append(l, int64(c))
			}
			return &Iter{V: l}
		case "isEmpty":
			return x == ""
		case "isNotEmpty":
			return x != ""
		}
	case int64:
		switch name {
		case "isNegative":
			return x < 0
		case "isNaN", "isInfinite":
			return false
		case "isFinite":
			return true
		}
	case float64:
		switch name {
		case "isNegative":
			return x < 0
		case "isNaN":
			return math.IsNaN(x)
		case "isInfinite":
			return math.IsInf(x, 0)
		case "isFinite":
			return !math.IsNaN(x) && !math.IsInf(x, 0)
		}
	case DateTime:
		switch name {
		case "millisecondsSinceEpoch":
			return floorDiv(x.Us, 1000)
		case "microsecondsSinceEpoch":
			return x.Us
		case "isUtc":
			return x.UTC
		}
	case *List:
		return fr.listGet(x.V, name, v, n)
	case *Iter:
		return fr.listGet(x.V, name, v, n)
	case *Set:
		return fr.listGet(x.V, name, v, n)
	case *Map:
		switch name {
		case "length":
			return int64(len(x.K))
		case "isEmpty":
			return len(x.K) == 0
		case "isNotEmpty":
			return len(x.K) > 0
		case "keys":
			return &Iter{append([]any{}, x.K...)}
		case "values":
			return &Iter{append([]any{}, x.V...)}
		case "entries":
			it := &Iter{V: []any{}}
			for i := range x.K {
				it.V = append(it.V, Entry{x.K[i], x.V[i]})
			}
			return it
		}
	case Entry:
		switch name {
		case "key":
			return x.K
		case "value":
			return x.V
		}
	case *Obj:
		if y, ok := x.F[name]; ok {
			return y
		}
		if x.N == "ByteData" || x.N == "Uint8List" || x.N == "ByteBuffer" {
			if name == "buffer" {
				return &Obj{N: "ByteBuffer", F: map[string]any{" bytes": x.F[" bytes"]}}
			}
		}
		if x.N == "BuildContext" {
			fr.noMember(v, name, n)
		}
	}
	// a method torn off
	switch v.(type) {
	case *Obj:
		fr.noMember(v, name, n)
	}
	return &Closure{Native: func(args []any, named map[string]any) any { return fr.nativeCall(v, name, args, named, n) }}
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func (fr *frame) listGet(vs []any, name string, v any, n *Node) any {
	switch name {
	case "length":
		return int64(len(vs))
	case "isEmpty":
		return len(vs) == 0
	case "isNotEmpty":
		return len(vs) > 0
	case "first", "last":
		if len(vs) == 0 {
			throw("StateError", "%s: No element", fr.at(n))
		}
		if name == "first" {
			return vs[0]
		}
		return vs[len(vs)-1]
	}
	return &Closure{Native: func(args []any, named map[string]any) any { return fr.nativeCall(v, name, args, named, n) }}
}

func (fr *frame) index(v, k any, n *Node) any {
	switch x := v.(type) {
	case *Map:
		if i := x.find(fr, k); i >= 0 {
			return x.V[i]
		}
		return nil
	case *List:
		i, ok := k.(int64)
		if !ok || i < 0 || i >= int64(len(x.V)) {
			throw("RangeError", "%s: index %s", fr.at(n), Show(k))
		}
		return x.V[i]
	}
	throw("NoSuchMethodError", "%s: %s[]", fr.at(n), TypeName(v))
	return nil
}

// arity checks the positional arguments of a library method.
func (fr *frame) arity(what string, args []any, named map[string]any, min, max int, n *Node) {
	if len(args) < min || len(args) > max {
		throw("NoSuchMethodError", "%s: %s is called with %d arguments", fr.at(n), what, len(args))
	}
	_ = named
}

func asNum(v any) (float64, bool) {
	switch x := v.(type) {
	case int64:
		return float64(x), true
	case float64:
		return x, true
	}
	return 0, false
}

func toInt(f float64, fr *frame, n *Node) int64 {
	switch {
	case math.IsNaN(f) || math.IsInf(f, 0):
		throw("UnsupportedError", "%s: Infinity or NaN toInt", fr.at(n))
	case f >= 9223372036854775807:
		return math.MaxInt64
	case f <= -9223372036854775808:
		return math.MinInt64
	}
	return int64(f)
}

// nativeCall calls a method of a library value.
func (fr *frame) nativeCall(v any, name string, args []any, named map[string]any, n *Node) any {
	what := TypeName(v) + "." + name
	ar := func(k int) { fr.arity(what, args, named, k, k, n) }
	if v == nil {
		switch name {
		case "toString":
			return "null"
		}
		throw("NoSuchMethodError", "%s: %s called on null", fr.at(n), name)
	}
	if name == "toString" {
		if o, ok := v.(*Obj); !ok || o.C == nil {
			ar(0)
			return fr.text(v, n)
		}
	}
	str := func(i int) string {
		s, ok := args[i].(string)
		if !ok {
			throw("TypeError", "%s: %s takes a String, not %s", fr.at(n), what, TypeName(args[i]))
		}
		return s
	}
	switch x := v.(type) {
	case *Closure:
		if name == "call" {
			return fr.call(x, args, named, n)
		}
	case *Future:
		if name == "then" {
			ar(1)
			r := fr.call(args[0], []any{x.V}, nil, n)
			if f, ok := r.(*Future); ok {
				return f
			}
			return &Future{V: r}
		}
	case bool:
	case string:
		switch name {
		case "startsWith":
			ar(1)
			return strings.HasPrefix(x, str(0))
		case "endsWith":
			ar(1)
			return strings.HasSuffix(x, str(0))
		case "split":
			ar(1)
			l := &List{V: []any{}}
			for _, p := range strings.Split(x, str(0)) {
				l.V = append(l.V, p)
			}
			return l
		case "contains":
			ar(1)
			return strings.Contains(x, str(0))
		case "trim":
			ar(0)
			return strings.TrimSpace(x)
		case "toLowerCase":
			ar(0)
			return strings.ToLower(x)
		case "toUpperCase":
			ar(0)
			return strings.ToUpper(x)
		case "compareTo":
			ar(1)
			return int64(strings.Compare(x, str(0)))
		}
	case int64, float64:
		f, _ := asNum(v)
		i, isInt := v.(int64)
		switch name {
		case "toInt", "truncate":
			ar(0)
			if isInt {
				return i
			}
			return toInt(f, fr, n)
		case "toDouble":
			ar(0)
			return f
		case "toStringAsFixed":
			ar(1)
			k, _ := args[0].(int64)
			if f == 0 || math.IsNaN(f) || math.IsInf(f, 0) || math.Abs(f) >= 1e21 {
				return strconv.FormatFloat(f, 'f', int(k), 64)
			}
			return new(big.Rat).SetFloat64(f).FloatString(int(k)) // ties away from zero
		case "abs":
			ar(0)
			if isInt {
				if i < 0 {
					return -i
				}
				return i
			}
			return math.Abs(f)
		case "round":
			ar(0)
			if isInt {
				return i
			}
			return toInt(math.Round(f), fr, n)
		case "compareTo":
			ar(1)
			g, ok := asNum(args[0])
			if !ok {
				throw("TypeError", "%s: %s", fr.at(n), what)
			}
			switch {
			case f < g:
				return int64(-1)
			case f > g:
				return int64(1)
			}
			return int64(0)
		}
	case Int64:
		switch name {
		case "toInt":
			ar(0)
			return x.V
		case "toDouble":
			ar(0)
			return float64(x.V)
		case "toStringUnsigned":
			ar(0)
			return strconv.FormatUint(uint64(x.V), 10)
		case "toHexString":
			ar(0)
			return strings.ToUpper(strconv.FormatUint(uint64(x.V), 16))
		case "compareTo":
			ar(1)
			switch y := args[0].(type) {
			case Int64:
				return cmp(x.V, y.V)
			case int64:
				return cmp(x.V, y)
			}
			throw("ArgumentError", "%s: %s", fr.at(n), what)
		}
	case *Decimal:
		switch name {
		case "toJson":
			ar(0)
			return x.String()
		case "toDouble":
			ar(0)
			f, _ := x.R.Float64()
			return f
		case "compareTo":
			ar(1)
			y, ok := args[0].(*Decimal)
			if !ok {
				throw("TypeError", "%s: %s takes a Decimal, not %s", fr.at(n), what, TypeName(args[0]))
			}
			return int64(x.R.Cmp(y.R))
		case "toStringAsFixed":
			ar(1)
			k, _ := args[0].(int64)
			return x.R.FloatString(int(k))
		}
	case DateTime:
		switch name {
		case "toIso8601String":
			ar(0)
			return strings.Replace(x.String(), " ", "T", 1)
		case "toUtc":
			ar(0)
			return DateTime{x.Us, true}
		case "compareTo":
			ar(1)
			y, ok := args[0].(DateTime)
			if !ok {
				throw("TypeError", "%s: %s", fr.at(n), what)
			}
			return cmp(x.Us, y.Us)
		}
	case *List:
		if name == "add" {
			ar(1)
			x.V = append(x.V, args[0])
			return nil
		}
		return fr.listCall(x.V, name, args, v, n)
	case *Set:
		at := -1
		for i, e := range x.V {
			if (name == "add" || name == "remove") && len(args) == 1 && at < 0 && fr.equal(e, args[0]) {
				at = i
			}
		}
		switch name {
		case "add":
			ar(1)
			if at < 0 {
				x.V = append(x.V, args[0])
			}
			return at < 0
		case "remove":
			ar(1)
			if at >= 0 {
				x.V = append(x.V[:at:at], x.V[at+1:]...)
			}
			return at >= 0
		case "clear":
			ar(0)
			x.V = []any{}
			return nil
		}
		return fr.listCall(x.V, name, args, v, n)
	case *Iter:
		return fr.listCall(x.V, name, args, v, n)
	case *Map:
		switch name {
		case "map":
			ar(1)
			m := &Map{}
			for i := range x.K {
				e, ok := fr.call(args[0], []any{x.K[i], x.V[i]}, nil, n).(Entry)
				if !ok {
					throw("TypeError", "%s: Map.map wants a MapEntry", fr.at(n))
				}
				m.Set(fr, e.K, e.V)
			}
			return m
		case "forEach":
			ar(1)
			for i := range x.K {
				fr.call(args[0], []any{x.K[i], x.V[i]}, nil, n)
			}
			return nil
		case "containsKey":
			ar(1)
			return x.find(fr, args[0]) >= 0
		case "remove":
			ar(1)
			if i := x.find(fr, args[0]); i >= 0 {
				y := x.V[i]
				x.K = append(x.K[:i:i], x.K[i+1:]...)
				x.V = append(x.V[:i:i], x.V[i+1:]...)
				return y
			}
			return nil
		}
	case *Obj:
		if x.C != nil {
			return fr.call(fr.get(x, name, n), args, named, n)
		}
		if c, ok := x.F[name].(*Closure); ok {
			return fr.call(c, args, named, n)
		}
		switch x.N + "." + name {
		case "json.encode":
			ar(1)
			return fr.Encode(args[0], n)
		case "json.decode":
			ar(1)
			d, err := Decode(str(0))
			if err != nil {
				throw("FormatException", "%s", err)
			}
			return d
		case "utf8.encode":
			ar(1)
			l := &List{V: []any{}}
			for _, c := range []byte(str(0)) {
				l.V = append(l.V, int64(c))
			}
			return l
		case "utf8.decode":
			ar(1)
			l, ok := args[0].(*List)
			if !ok {
				throw("TypeError", "utf8.decode takes a List<int>")
			}
			var b []byte
			for _, c := range l.V {
				i, ok := c.(int64)
				if !ok {
					throw("TypeError", "utf8.decode takes a List<int>")
				}
				b = append(b, byte(i))
			}
			if !utf8.Valid(b) {
				throw("FormatException", "bad UTF-8")
			}
			return string(b)
		case "RegExp.hasMatch":
			ar(1)
			return x.F[" re"].(*regexp.Regexp).MatchString(str(0))
		case "ByteBuffer.asUint8List":
			return x.F[" bytes"]
		}
	}
	if fr.w.Host != nil {
		o, ok := v.(*Obj)
		if !ok {
			args = append([]any{v}, args...)
		}
		if y, ok := fr.w.Host("."+name, o, args, named, nil); ok {
			return y
		}
	}
	fr.noMember(v, name, n)
	return nil
}

func cmp(a, b int64) int64 {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

func (fr *frame) listCall(vs []any, name string, args []any, v any, n *Node) any {
	ar := func(k int) { fr.arity(TypeName(v)+"."+name, args, nil, k, k, n) }
	switch name {
	case "map":
		ar(1)
		it := &Iter{V: []any{}}
		for _, x := range vs {
			it.V = append(it.V, fr.call(args[0], []any{x}, nil, n))
		}
		return it
	case "where":
		ar(1)
		it := &Iter{V: []any{}}
		for _, x := range vs {
			if fr.call(args[0], []any{x}, nil, n) == any(true) {
				it.V = append(it.V, x)
			}
		}
		return it
	case "toList":
		fr.arity("toList", args, nil, 0, 0, n)
		return &List{append([]any{}, vs...)}
	case "toSet":
		s := &Set{V: []any{}}
		for _, x := range vs {
			fr.nativeCall(s, "add", []any{x}, nil, n)
		}
		return s
	case "forEach":
		ar(1)
		for _, x := range vs {
			fr.call(args[0], []any{x}, nil, n)
		}
		return nil
	case "contains":
		ar(1)
		for _, x := range vs {
			if fr.equal(x, args[0]) {
				return true
			}
		}
		return false
	case "any", "every":
		ar(1)
		for _, x := range vs {
			if (fr.call(args[0], []any{x}, nil, n) == any(true)) == (name == "any") {
				return name == "any"
			}
		}
		return name == "every"
	case "join":
		sep := ""
		if len(args) > 0 {
			sep, _ = args[0].(string)
		}
		var p []string
		for _, x := range vs {
			p = append(p, fr.text(x, n))
		}
		return strings.Join(p, sep)
	case "elementAt":
		ar(1)
		i, ok := args[0].(int64)
		if !ok || i < 0 || i >= int64(len(vs)) {
			throw("RangeError", "%s", fr.at(n))
		}
		return vs[i]
	case "firstWhere":
		for _, x := range vs {
			if fr.call(args[0], []any{x}, nil, n) == any(true) {
				return x
			}
		}
		throw("StateError", "%s: No element", fr.at(n))
	}
	fr.noMember(v, name, n)
	return nil
}

// nativeStatic reads a static member of a library class.
func (fr *frame) nativeStatic(cls string, n *Node) any {
	switch cls + "." + n.S {
	case "Int64.ZERO":
		return Int64{}
	case "Int64.ONE":
		return Int64{1}
	case "Decimal.zero":
		return &Decimal{new(big.Rat)}
	case "Decimal.one":
		return &Decimal{big.NewRat(1, 1)}
	}
	return &Closure{Native: func(args []any, named map[string]any) any { return fr.nativeNew(cls, n.S, args, named, nil, n) }}
}

// ParseInt64 is Int64.parseInt: digits beyond 64 bits wrap.
func ParseInt64(s string) (Int64, bool) {
	b, ok := new(big.Int).SetString(s, 10)
	if !ok || s == "" || strings.ContainsAny(s, "_+") {
		return Int64{}, false
	}
	b.And(b, new(big.Int).SetUint64(math.MaxUint64))
	return Int64{int64(b.Uint64())}, true
}

// nativeNew runs a constructor or static method of a library class, or a library function.
func (fr *frame) nativeNew(cls, name string, args []any, named map[string]any, ta []*Type, n *Node) any {
	what := cls
	if name != "" {
		what += "." + name
	}
	ar := func(min, max int) { fr.arity(what, args, named, min, max, n) }
	str := func() string {
		ar(1, 1)
		s, ok := args[0].(string)
		if !ok {
			throw("TypeError", "%s: %s takes a String, not %s", fr.at(n), what, TypeName(args[0]))
		}
		return s
	}
	num := func() int64 {
		ar(1, 1)
		i, ok := args[0].(int64)
		if !ok {
			throw("TypeError", "%s: %s takes an int, not %s", fr.at(n), what, TypeName(args[0]))
		}
		return i
	}
	must := func(v any, s string) any {
		if v == nil {
			throw("FormatException", "%s: %s(%q)", fr.at(n), what, s)
		}
		return v
	}
	switch what {
	case "identical":
		ar(2, 2)
		switch a := args[0].(type) {
		case *Obj:
			b, ok := args[1].(*Obj)
			return ok && a == b
		}
		return fr.equal(args[0], args[1])
	case "print":
		return nil
	case "MapEntry":
		ar(2, 2)
		return Entry{args[0], args[1]}
	case "num.tryParse":
		return ParseNum(str())
	case "num.parse":
		s := str()
		return must(ParseNum(s), s)
	case "int.tryParse":
		return ParseInt(str())
	case "int.parse":
		s := str()
		return must(ParseInt(s), s)
	case "double.tryParse":
		return ParseDouble(str())
	case "double.parse":
		s := str()
		return must(ParseDouble(s), s)
	case "Int64":
		ar(0, 1)
		if len(args) == 0 {
			return Int64{}
		}
		return Int64{num()}
	case "Int64.parseInt":
		s := str()
		v, ok := ParseInt64(s)
		if !ok {
			throw("FormatException", "%s: %s(%q)", fr.at(n), what, s)
		}
		return v
	case "Int64.tryParseInt":
		v, ok := ParseInt64(str())
		if !ok {
			return nil
		}
		return v
	case "Decimal.tryParse":
		if d := ParseDecimal(str()); d != nil {
			return d
		}
		return nil
	case "Decimal.parse", "Decimal.fromJson":
		s := str()
		d := ParseDecimal(s)
		if d == nil {
			throw("FormatException", "%s: %s(%q)", fr.at(n), what, s)
		}
		return d
	case "Decimal.fromInt":
		return &Decimal{new(big.Rat).SetInt64(num())}
	case "DateTime.fromMillisecondsSinceEpoch":
		ms := num()
		if ms > 8_640_000_000_000_000 || ms < -8_640_000_000_000_000 {
			throw("ArgumentError", "%s: DateTime is outside valid range: %d", fr.at(n), ms)
		}
		return DateTime{ms * 1000, named["isUtc"] == any(true)}
	case "DateTime.tryParse":
		return ParseDate(str())
	case "DateTime.parse":
		s := str()
		return must(ParseDate(s), s)
	case "DateTime.now":
		return DateTime{time.Now().UnixMicro(), false}
	case "RegExp":
		s := str()
		re, err := regexp.Compile(s)
		if err != nil {
			throw("FormatException", "%s: %s", fr.at(n), err)
		}
		return &Obj{N: "RegExp", F: map[string]any{" re": re, "pattern": s}}
	case "jsonEncode":
		ar(1, 1)
		return fr.Encode(args[0], n)
	case "jsonDecode":
		d, err := Decode(str())
		if err != nil {
			throw("FormatException", "%s", err)
		}
		return d
	case "SynchronousFuture", "Future.value":
		ar(0, 1)
		var v any
		if len(args) > 0 {
			v = args[0]
		}
		if !fits(v, typeIf(ta, 0), fr.lib) {
			throw("TypeError", "%s: %s holds %s", fr.at(n), what, TypeName(v))
		}
		return &Future{V: v}
	case "Uint8List":
		k := num()
		l := &List{V: make([]any, k)}
		for i := range l.V {
			l.V[i] = int64(0)
		}
		return &Obj{N: "Uint8List", F: map[string]any{" bytes": l}}
	case "Uint8List.fromList":
		ar(1, 1)
		l, ok := args[0].(*List)
		if !ok {
			throw("TypeError", "%s: Uint8List.fromList takes a List<int>", fr.at(n))
		}
		return &Obj{N: "Uint8List", F: map[string]any{" bytes": l}}
	case "ByteData.view":
		ar(1, 3)
		b, ok := args[0].(*Obj)
		if !ok || b.N != "ByteBuffer" {
			throw("TypeError", "%s: ByteData.view takes a ByteBuffer", fr.at(n))
		}
		return &Obj{N: "ByteData", F: map[string]any{" bytes": b.F[" bytes"]}}
	case "ServerInvoke":
		ar(0, 0)
		for _, k := range []string{"toData", "formData", "invoke"} {
			if _, ok := named[k].(*Closure); !ok {
				throw("TypeError", "%s: ServerInvoke without %s", fr.at(n), k)
			}
		}
		return &Obj{N: "ServerInvoke", F: named}
	case "Locale":
		ar(1, 2)
		return &Obj{N: "Locale", F: map[string]any{"languageCode": args[0]}}
	}
	return fr.host(what, nil, args, named, ta, n)
}

// operate applies a binary operator.
func (fr *frame) operate(n *Node, a any, op string, b any) any {
	bad := func() {
		throw("TypeError", "%s: %s %s %s", fr.at(n), TypeName(a), op, TypeName(b))
	}
	switch x := a.(type) {
	case string:
		y, ok := b.(string)
		if op == "+" && ok {
			return x + y
		}
	case int64:
		y, ok := b.(int64)
		if !ok {
			break
		}
		switch op {
		case "+":
			return x + y
		case "-":
			return x - y
		case "*":
			return x * y
		case "/":
			return float64(x) / float64(y)
		case "~/", "%":
			if y == 0 {
				throw("UnsupportedError", "%s: division by zero", fr.at(n))
			}
			if op == "~/" {
				return x / y
			}
			m := x % y
			if m < 0 {
				if y < 0 {
					m -= y
				} else {
					m += y
				}
			}
			return m
		case "<<":
			if y < 0 {
				throw("ArgumentError", "%s: negative shift", fr.at(n))
			}
			if y > 63 {
				return int64(0)
			}
			return x << uint(y)
		case ">>":
			if y < 0 {
				throw("ArgumentError", "%s: negative shift", fr.at(n))
			}
			return x >> uint(min(y, 63))
		case "&":
			return x & y
		case "|":
			return x | y
		case "^":
			return x ^ y
		}
	case *Decimal:
		y, ok := b.(*Decimal)
		if !ok {
			break
		}
		c := x.R.Cmp(y.R)
		switch op {
		case "<":
			return c < 0
		case ">":
			return c > 0
		case "<=":
			return c <= 0
		case ">=":
			return c >= 0
		case "+":
			return &Decimal{new(big.Rat).Add(x.R, y.R)}
		case "-":
			return &Decimal{new(big.Rat).Sub(x.R, y.R)}
		case "*":
			return &Decimal{new(big.Rat).Mul(x.R, y.R)}
		}
		bad()
	case Int64:
		var y Int64
		switch z := b.(type) {
		case Int64:
			y = z
		case int64:
			y = Int64{z}
		default:
			bad()
		}
		switch op {
		case "<":
			return x.V < y.V
		case ">":
			return x.V > y.V
		case "<=":
			return x.V <= y.V
		case ">=":
			return x.V >= y.V
		case "+":
			return Int64{x.V + y.V}
		case "-":
			return Int64{x.V - y.V}
		}
		bad()
	case bool:
		y, ok := b.(bool)
		if !ok {
			break
		}
		switch op {
		case "&":
			return x && y
		case "|":
			return x || y
		case "^":
			return x != y
		}
	case *Obj:
		if x.C != nil {
			if m := x.C.impl(op, false); m != nil {
				return fr.method(m, x, []any{b}, nil, n)
			}
		}
	}
	x, ok := asNum(a)
	y, ok2 := asNum(b)
	if !ok || !ok2 {
		bad()
	}
	if i, is := a.(int64); is {
		if j, is := b.(int64); is {
			switch op {
			case "<":
				return i < j
			case ">":
				return i > j
			case "<=":
				return i <= j
			case ">=":
				return i >= j
			}
		}
	}
	switch op {
	case "<":
		return x < y
	case ">":
		return x > y
	case "<=":
		return x <= y
	case ">=":
		return x >= y
	case "+":
		return x + y
	case "-":
		return x - y
	case "*":
		return x * y
	case "/":
		return x / y
	case "~/":
		return toInt(math.Trunc(x/y), fr, n)
	}
	bad()
	return nil
}

func (fr *frame) unary(n *Node, e *env) any {
	v := fr.eval(n.A, e, nil)
	switch n.S {
	case "!":
		b, ok := v.(bool)
		if !ok {
			throw("TypeError", "%s: ! on %s", fr.at(n), TypeName(v))
		}
		return !b
	case "-":
		switch x := v.(type) {
		case int64:
			return -x
		case float64:
			return -x
		case Int64:
			return Int64{-x.V}
		case *Decimal:
			return &Decimal{new(big.Rat).Neg(x.R)}
		}
	case "~":
		if x, ok := v.(int64); ok {
			return ^x
		}
	case "++", "--":
		return fr.assign(&Node{K: "assign", S: n.S[:1] + "=", A: n.A, B: &Node{K: "int", Int: 1, Pos: n.Pos}, Pos: n.Pos}, e)
	}
	throw("TypeError", "%s: %s on %s", fr.at(n), n.S, TypeName(v))
	return nil
}

// Encode is json.encode.
func (fr *frame) Encode(v any, n *Node) string {
	var b strings.Builder
	var enc func(v any, depth int)
	enc = func(v any, depth int) {
		switch x := v.(type) {
		case nil:
			b.WriteString("null")
		case bool:
			fmt.Fprint(&b, x)
		case int64:
			b.WriteString(strconv.FormatInt(x, 10))
		case float64:
			if math.IsNaN(x) || math.IsInf(x, 0) {
				throw("JsonUnsupportedObjectError", "%s", Show(v))
			}
			b.WriteString(doubleText(x))
		case string:
			j := new(bytes.Buffer)
			e := json.NewEncoder(j)
			e.SetEscapeHTML(false)
			e.Encode(x)
			b.WriteString(strings.TrimSuffix(j.String(), "\n"))
		case *List:
			b.WriteByte('[')
			for i, y := range x.V {
				if i > 0 {
					b.WriteByte(',')
				}
				enc(y, depth)
			}
			b.WriteByte(']')
		case *Map:
			b.WriteByte('{')
			for i := range x.K {
				k, ok := x.K[i].(string)
				if !ok {
					throw("JsonUnsupportedObjectError", "a map with a key of type %s", TypeName(x.K[i]))
				}
				if i > 0 {
					b.WriteByte(',')
				}
				enc(k, depth)
				b.WriteByte(':')
				enc(x.V[i], depth)
			}
			b.WriteByte('}')
		case *Decimal:
			enc(x.String(), depth) // by its toJson
		case *Obj:
			if x.C != nil && depth < 20 {
				if m := x.C.impl("toJson", false); m != nil {
					enc(fr.method(m, x, nil, nil, n), depth+1)
					return
				}
			}
			throw("JsonUnsupportedObjectError", "Converting object to an encodable object failed: %s", Show(v))
		default:
			throw("JsonUnsupportedObjectError", "Converting object to an encodable object failed: a %s", TypeName(v))
		}
	}
	enc(v, 0)
	return b.String()
}

// EncodeJSON is json.encode for the outside.
func (w *World) EncodeJSON(v any) (string, error) {
	s, err := Try(func() any { return w.any().Encode(v, none) })
	if err != nil {
		return "", err
	}
	return s.(string), nil
}

// Decode is json.decode.
func Decode(s string) (any, error) {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	v, err := decode(d)
	if err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("more than one value")
	}
	return v, nil
}

func decode(d *json.Decoder) (any, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch x := t.(type) {
	case json.Delim:
		if x == '[' {
			l := &List{V: []any{}}
			for d.More() {
				v, err := decode(d)
				if err != nil {
					return nil, err
				}
				l.V = append(l.V, v)
			}
			_, err := d.Token()
			return l, err
		}
		m := &Map{}
		for d.More() {
			k, err := d.Token()
			if err != nil {
				return nil, err
			}
			v, err := decode(d)
			if err != nil {
				return nil, err
			}
			s := k.(string)
			dup := false
			for i := range m.K {
				if m.K[i] == any(s) {
					m.V[i], dup = v, true
				}
			}
			if !dup {
				m.K, m.V = append(m.K, s), append(m.V, v)
			}
		}
		_, err := d.Token()
		return m, err
	case json.Number:
		s := x.String()
		if !strings.ContainsAny(s, ".eE") {
			if i, err := strconv.ParseInt(s, 10, 64); err == nil {
				if i == 0 && s[0] == '-' {
					return math.Copysign(0, -1), nil
				}
				return i, nil
			}
		}
		f, err := strconv.ParseFloat(s, 64)
		if err != nil && !math.IsInf(f, 0) {
			return nil, err
		}
		return f, nil
	}
	return t, nil
}
