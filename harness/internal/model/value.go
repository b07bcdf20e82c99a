package model

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Values are kept in a neutral form that is also what the drivers exchange:
//
//	null                      nil
//	ints, enums, date(ms)     decimal string
//	float/double              shortest decimal string
//	decimal, string           string
//	bool                      bool
//	list                      []any
//	map                       [][2]any, sorted by key text
//	data                      map[string]any keyed by declared field name
type (
	List = []any
	Pair = [2]any
	Obj  = map[string]any
)

var intRange = map[string][2]string{
	Int8: {"-128", "127"}, Int16: {"-32768", "32767"}, Int32: {"-2147483648", "2147483647"},
	Int64: {"-9223372036854775808", "9223372036854775807"},
	Uint8: {"0", "255"}, Uint16: {"0", "65535"}, Uint32: {"0", "4294967295"}, Uint64: {"0", "18446744073709551615"},
}

func IsInt(b string) bool { _, ok := intRange[b]; return ok }

var stringPool = []string{"", "a", "hello", "with \"quotes\"", "back\\slash", "new\nline", "tab\t", "<html>&amp;", "日本語", "emoji 😀", "null", "0", "true", " lead", "trail ", "\u2028sep", "it's", "${x}", "long " + strings.Repeat("z", 60), "-1", "{}", "[]", "\u0000nul", "é"}
var decPool = []string{"0", "1", "-1", "1.5", "-0.25", "12345678901234567890.123456789", "0.000001", "100", "3.14159", "99999999.99", "-7"}

func (r *Rng) baseVal(b string) any {
	if rg, ok := intRange[b]; ok {
		lo, _ := new(big.Int).SetString(rg[0], 10)
		hi, _ := new(big.Int).SetString(rg[1], 10)
		switch r.Intn(6) {
		case 0:
			return rg[0]
		case 1:
			return rg[1]
		case 2:
			return "0"
		case 3:
			v := big.NewInt(int64(r.Range(-3, 100)))
			if v.Cmp(lo) < 0 {
				v = lo
			}
			return v.String()
		default:
			span := new(big.Int).Sub(hi, lo)
			v := new(big.Int).Rand(r.Rand, span)
			return v.Add(v, lo).String()
		}
	}
	switch b {
	case Bool:
		return r.P(0.5)
	case Float:
		f := Pick(r, []float32{0, 1, -1, 0.5, 3.25, -1024.75, float32(r.Intn(1 << 20)), float32(r.NormFloat64()), math.MaxFloat32, 1e-10})
		return strconv.FormatFloat(float64(f), 'g', -1, 32)
	case Double:
		f := Pick(r, []float64{0, 1, -1, 0.1, 1e21, -2.5e-9, r.NormFloat64(), float64(r.Int63n(1 << 53)), math.MaxFloat64, 123456.789})
		return strconv.FormatFloat(f, 'g', -1, 64)
	case String:
		if r.P(0.3) {
			return "s" + strconv.Itoa(r.Intn(1000))
		}
		return Pick(r, stringPool)
	case Date:
		return strconv.FormatInt(Pick(r, []int64{0, 1, -1, 1700000000123, -62135596800000 + 1, 253402300799999, r.Int63n(2000000000000), 86400000}), 10)
	case Decimal:
		return Pick(r, decPool)
	}
	panic("base " + b)
}

func (r *Rng) refVal(x Ref, depth int) any {
	if x.Null && r.P(0.35) {
		return nil
	}
	switch x.Kind {
	case KBase:
		return r.baseVal(x.Base)
	case KEnum:
		if len(x.Enum.Items) == 0 {
			return "0"
		}
		return strconv.Itoa(Pick(r, x.Enum.Items).Value)
	}
	if x.Null && depth <= 0 {
		return nil
	}
	return r.DataVal(x.Data, depth-1)
}

func (r *Rng) TypeVal(t Type, depth int) any {
	if t.Cont != None && t.ContNull && r.P(0.3) {
		return nil
	}
	n := r.Range(0, 3)
	if depth <= 0 && t.Elem.Kind == KData {
		n = 0
	}
	switch t.Cont {
	case Array:
		out := List{}
		for i := 0; i < n; i++ {
			out = append(out, r.refVal(t.Elem, depth))
		}
		return out
	case Map:
		ps := map[string]any{}
		for i := 0; i < n; i++ {
			k := t.Key
			k.Null = false
			ps[fmt.Sprint(r.refVal(k, depth))] = r.refVal(t.Elem, depth)
		}
		return SortedPairs(ps)
	}
	return r.refVal(t.Elem, depth)
}

func SortedPairs(m map[string]any) List {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := List{}
	for _, k := range ks {
		out = append(out, List{k, m[k]})
	}
	return out
}

// DataVal makes a random value of d.
func (r *Rng) DataVal(d *Data, depth int) Obj {
	o := Obj{}
	for _, f := range d.AllFields() {
		o[f.Name] = r.TypeVal(f.Type, depth)
	}
	return o
}

// ---- the wire form ----

// Wire is the JSON document that stands for v, in the wire form shared by all
// targets: snake-case keys, 64-bit integers and decimals as strings, dates as
// milliseconds, enums as numbers.
func Wire(d *Data, v Obj) map[string]any {
	out := map[string]any{}
	for _, f := range d.AllFields() {
		out[Snake(f.Name)] = wireType(f.Type, v[f.Name])
	}
	return out
}

func wireRef(x Ref, v any) any {
	if v == nil {
		return nil
	}
	switch x.Kind {
	case KEnum:
		return json.Number(v.(string))
	case KData:
		return Wire(x.Data, v.(Obj))
	}
	switch x.Base {
	case Int64, Uint64, Decimal, String:
		return v
	case Bool:
		return v
	}
	return json.Number(v.(string))
}

func wireType(t Type, v any) any {
	if v == nil {
		return nil
	}
	switch t.Cont {
	case Array:
		out := []any{}
		for _, e := range v.(List) {
			out = append(out, wireRef(t.Elem, e))
		}
		return out
	case Map:
		out := map[string]any{}
		for _, p := range v.(List) {
			kv := p.(List)
			out[kv[0].(string)] = wireRef(t.Elem, kv[1])
		}
		return out
	}
	return wireRef(t.Elem, v)
}

// Default is the value a member takes when a document does not mention it.
func Default(t Type) any {
	if t.IsNull() {
		return nil
	}
	if t.Cont != None {
		return List{}
	}
	return DefaultRef(t.Elem)
}

func DefaultRef(x Ref) any {
	if x.Null {
		return nil
	}
	switch x.Kind {
	case KEnum:
		return "0"
	case KData:
		o := Obj{}
		for _, f := range x.Data.AllFields() {
			o[f.Name] = Default(f.Type)
		}
		return o
	}
	switch x.Base {
	case Bool:
		return false
	case String:
		return ""
	}
	return "0"
}

// ---- comparison ----

// Cmp says where two wire documents differ in meaning, or "". strict also
// demands that every non-null member is present.
type Cmp struct {
	// EmptyIsNull treats an empty container and a null one alike (Go omits both).
	EmptyIsNull bool
	// AnyDate accepts any number for an absent date default (targets default it to now).
	AbsentOK bool
	// Bytes takes a list of uint8 in base64 for the list.
	Bytes bool
}

func numEq(a, b string) bool {
	x, ok1 := new(big.Rat).SetString(a)
	y, ok2 := new(big.Rat).SetString(b)
	return ok1 && ok2 && x.Cmp(y) == 0
}

// CheckWire compares got (decoded with UseNumber) against the value v of d.
// It returns a description of the first difference.
func (c Cmp) CheckWire(d *Data, v Obj, got any, at string) string {
	m, ok := got.(map[string]any)
	if !ok {
		return fmt.Sprintf("%s: not an object: %v", at, got)
	}
	want := map[string]bool{}
	for _, f := range d.AllFields() {
		k := Snake(f.Name)
		want[k] = true
		g, present := m[k]
		if e := c.checkField(f.Type, v[f.Name], g, present, at+"."+k); e != "" {
			return e
		}
	}
	for k := range m {
		if !want[k] {
			return fmt.Sprintf("%s: unknown key %q", at, k)
		}
	}
	return ""
}

func isEmptyList(v any) bool { l, ok := v.(List); return ok && len(l) == 0 }

func (c Cmp) checkField(t Type, v any, g any, present bool, at string) string {
	if !present || g == nil {
		if v == nil {
			return ""
		}
		if isEmptyList(v) && (c.EmptyIsNull || !t.ContNull && !present) {
			return ""
		}
		if !present && t.Cont == None && !t.Elem.Null && c.AbsentOK && IsDefault(t, v) {
			return ""
		}
		return fmt.Sprintf("%s: %s, want %s", at, map[bool]string{true: "null", false: "absent"}[present], show(v))
	}
	if v == nil {
		if c.EmptyIsNull && t.Cont != None {
			switch x := g.(type) {
			case []any:
				if len(x) == 0 {
					return ""
				}
			case map[string]any:
				if len(x) == 0 {
					return ""
				}
			}
		}
		return fmt.Sprintf("%s: got %s, want null", at, show(g))
	}
	switch t.Cont {
	case Array:
		if s, ok := g.(string); ok && c.Bytes && t.Elem.Kind == KBase && t.Elem.Base == Uint8 && !t.Elem.Null {
			b, err := base64.StdEncoding.DecodeString(s)
			l := []any{}
			for _, x := range b {
				l = append(l, json.Number(strconv.Itoa(int(x))))
			}
			if err == nil {
				g = l
			}
		}
		l, ok := g.([]any)
		w := v.(List)
		if !ok || len(l) != len(w) {
			return fmt.Sprintf("%s: got %s, want %s", at, show(g), show(v))
		}
		for i := range w {
			if e := c.checkRef(t.Elem, w[i], l[i], at+"["+strconv.Itoa(i)+"]"); e != "" {
				return e
			}
		}
		return ""
	case Map:
		m, ok := g.(map[string]any)
		w := v.(List)
		if !ok || len(m) != len(w) {
			return fmt.Sprintf("%s: got %s, want %s", at, show(g), show(v))
		}
		for _, p := range w {
			k := p.(List)[0].(string)
			x, ok := m[k]
			if !ok {
				return fmt.Sprintf("%s: key %q missing in %s", at, k, show(g))
			}
			if e := c.checkRef(t.Elem, p.(List)[1], x, at+"{"+k+"}"); e != "" {
				return e
			}
		}
		return ""
	}
	return c.checkRef(t.Elem, v, g, at)
}

func (c Cmp) checkRef(x Ref, v any, g any, at string) string {
	bad := func() string { return fmt.Sprintf("%s: got %s (%T), want %s", at, show(g), g, show(v)) }
	if v == nil || g == nil {
		if v == nil && g == nil {
			return ""
		}
		return bad()
	}
	if x.Kind == KData {
		return c.CheckWire(x.Data, v.(Obj), g, at)
	}
	if x.Kind == KBase {
		switch x.Base {
		case Bool:
			if b, ok := g.(bool); ok && b == v.(bool) {
				return ""
			}
			return bad()
		case String:
			if s, ok := g.(string); ok && s == v.(string) {
				return ""
			}
			return bad()
		case Int64, Uint64, Decimal:
			if s, ok := g.(string); ok && numEq(s, v.(string)) {
				return ""
			}
			return bad()
		case Float:
			n, ok := g.(json.Number)
			if !ok {
				return bad()
			}
			a, _ := strconv.ParseFloat(n.String(), 32)
			b, _ := strconv.ParseFloat(v.(string), 32)
			if float32(a) == float32(b) {
				return ""
			}
			return bad()
		case Double:
			n, ok := g.(json.Number)
			if !ok {
				return bad()
			}
			a, _ := n.Float64()
			b, _ := strconv.ParseFloat(v.(string), 64)
			if a == b {
				return ""
			}
			return bad()
		}
	}
	n, ok := g.(json.Number)
	if ok && numEq(n.String(), v.(string)) {
		return ""
	}
	return bad()
}

// IsDefault says whether v is what an absent member reads as.
func IsDefault(t Type, v any) bool {
	return EqualVal(t, v, Default(t), Cmp{EmptyIsNull: true}, "") == ""
}

// EqualObj compares two neutral values of d.
func EqualObj(d *Data, want, got Obj, c Cmp, at string) string {
	for _, f := range d.AllFields() {
		g, ok := got[f.Name]
		if !ok {
			return at + "." + f.Name + ": member missing"
		}
		if e := EqualVal(f.Type, want[f.Name], g, c, at+"."+f.Name); e != "" {
			return e
		}
	}
	return ""
}

func EqualVal(t Type, want, got any, c Cmp, at string) string {
	if t.Cont != None && c.EmptyIsNull {
		if want == nil {
			want = List{}
		}
		if got == nil {
			got = List{}
		}
	}
	if want == nil || got == nil {
		if want == nil && got == nil {
			return ""
		}
		return fmt.Sprintf("%s: got %s, want %s", at, show(got), show(want))
	}
	switch t.Cont {
	case Array:
		w, g := want.(List), asList(got)
		if g == nil || len(w) != len(g) {
			return fmt.Sprintf("%s: got %s, want %s", at, show(got), show(want))
		}
		for i := range w {
			if e := equalRef(t.Elem, w[i], g[i], c, at+"["+strconv.Itoa(i)+"]"); e != "" {
				return e
			}
		}
		return ""
	case Map:
		w, g := want.(List), asList(got)
		if g == nil || len(w) != len(g) {
			return fmt.Sprintf("%s: got %s, want %s", at, show(got), show(want))
		}
		gm := map[string]any{}
		for _, p := range g {
			l := asList(p)
			if len(l) != 2 {
				return at + ": malformed map from driver"
			}
			gm[fmt.Sprint(l[0])] = l[1]
		}
		for _, p := range w {
			k := p.(List)[0].(string)
			x, ok := gm[k]
			if !ok {
				return fmt.Sprintf("%s: key %q missing", at, k)
			}
			if e := equalRef(t.Elem, p.(List)[1], x, c, at+"{"+k+"}"); e != "" {
				return e
			}
		}
		return ""
	}
	return equalRef(t.Elem, want, got, c, at)
}

func asList(v any) List {
	if l, ok := v.([]any); ok {
		return l
	}
	return nil
}

func equalRef(x Ref, want, got any, c Cmp, at string) string {
	bad := func() string { return fmt.Sprintf("%s: got %s, want %s", at, show(got), show(want)) }
	if want == nil || got == nil {
		if want == nil && got == nil {
			return ""
		}
		return bad()
	}
	if x.Kind == KData {
		g, ok := got.(map[string]any)
		if !ok {
			return bad()
		}
		return EqualObj(x.Data, want.(Obj), g, c, at)
	}
	if x.Kind == KBase {
		switch x.Base {
		case Bool:
			if want == got {
				return ""
			}
			return bad()
		case String:
			if want == got {
				return ""
			}
			return bad()
		case Float:
			a, e1 := strconv.ParseFloat(fmt.Sprint(want), 32)
			b, e2 := strconv.ParseFloat(fmt.Sprint(got), 32)
			if e1 == nil && e2 == nil && float32(a) == float32(b) {
				return ""
			}
			return bad()
		case Double:
			a, e1 := strconv.ParseFloat(fmt.Sprint(want), 64)
			b, e2 := strconv.ParseFloat(fmt.Sprint(got), 64)
			if e1 == nil && e2 == nil && a == b {
				return ""
			}
			return bad()
		}
	}
	if g, ok := got.(string); ok && numEq(g, want.(string)) {
		return ""
	}
	return bad()
}

func show(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprint(v)
	}
	if len(b) > 300 {
		b = append(b[:300], "..."...)
	}
	return string(b)
}

func Show(v any) string { return show(v) }

// WireVal is the document for a value of a member type, CheckVal compares one.
func WireVal(t Type, v any) any { return wireType(t, v) }

func (c Cmp) CheckVal(t Type, v, got any, at string) string { return c.checkField(t, v, got, true, at) }

// EnumItem is the item of e with the value v, in the neutral form, or nil.
func EnumItem(e *Enum, v any) *Item {
	for _, it := range e.Items {
		if strconv.Itoa(it.Value) == v {
			return it
		}
	}
	return nil
}
