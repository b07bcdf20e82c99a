package main

import (
	"fmt"
	"math"
	"math/big"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/harness/internal/cli"
	"verif/harness/internal/dart"
	"verif/harness/internal/model"
	"verif/harness/internal/report"
)

func init() {
	checks["C29"] = c29
}

// dartCase is one schema with its generated Dart loaded into the interpreter.
type dartCase struct {
	N     int
	S     *model.Schema
	Src   map[string]string
	Files map[string]string
	W     *dart.World
	Stage string // what went wrong: generate, syntax, names
	Key   string
	Err   string
}

// dartBatch holds several schemas' Dart.
type dartBatch struct {
	Dir, Bin string
	Cases    []*dartCase
	r        *report.Run
}

func newDart(r *report.Run, bin string) *dartBatch {
	return &dartBatch{Dir: cli.Dir(), Bin: bin, r: r}
}

func (b *dartBatch) Drop() { cli.Drop(b.Dir) }

func (b *dartBatch) Add(s *model.Schema, src map[string]string) *dartCase {
	if src == nil {
		src = s.Sources(nil)
	}
	c := &dartCase{N: len(b.Cases), S: s, Src: src}
	b.Cases = append(b.Cases, c)
	return c
}

// Compile generates everything, parses it and resolves every name.
func (b *dartBatch) Compile() {
	cli.Parallel(8, len(b.Cases), time.Now().Add(time.Hour), func(i int) {
		c := b.Cases[i]
		in := filepath.Join(b.Dir, "in", fmt.Sprint(c.N))
		cli.Write(in, c.Src)
		out := filepath.Join(b.Dir, "out", fmt.Sprint(c.N))
		x := cli.Gen(b.Bin, in+"/*.hbuf", out, "dart", "")
		if x.Code != 0 || x.Crashed() {
			c.Stage, c.Key, c.Err = "generate", "generate", fmt.Sprintf("exit status %d: %s", x.Code, x.Out)
			return
		}
		c.Files = cli.Tree(out)
		w, errs := dart.Load(c.Files)
		for _, e := range errs {
			c.Stage, c.Key = "syntax", "syntax-"+kindOfFile(e.File)
			c.Err += e.Error() + "\n"
		}
		if c.Err == "" {
			for _, p := range w.Check() {
				if c.Err == "" {
					c.Stage, c.Key = "names", kindOfFile(p.File)+"-"+p.Key
				}
				if len(c.Err) < 3000 {
					c.Err += p.String() + "\n"
					if l := strings.Split(c.Files[p.File], "\n"); p.Line <= len(l) {
						c.Err += "    " + strings.TrimSpace(l[p.Line-1]) + "\n"
					}
				}
			}
		}
		c.W = w
	})
}

func kindOfFile(n string) string {
	p := strings.Split(n, ".")
	if len(p) < 3 {
		return "file"
	}
	return p[len(p)-2]
}

// Report reports every case that is not well formed.
func (b *dartBatch) Report() {
	for _, c := range b.Cases {
		if c.Err != "" {
			b.r.Violation("dart-"+c.Key, "the Dart of a valid schema set is not well formed ("+c.Stage+"):\n"+c.Err, c.Replay(c.Err))
		}
	}
}

// Good lists the cases that can run.
func (b *dartBatch) Good() (out []*dartCase) {
	for _, c := range b.Cases {
		if c.Err == "" {
			out = append(out, c)
		}
	}
	return
}

// Replay describes a case for a replay file.
func (c *dartCase) Replay(what string) string {
	return fmt.Sprintf("hbuf -i 'in/*.hbuf' -o out -t dart\n%s\n\n%s", what, cli.Show(c.Src))
}

func (c *dartCase) class(f *model.File, kind, name string) *dart.Class {
	return c.W.Class(f.Base()+"."+kind+".dart", model.Hump(name))
}

// Data, Enum and Server give the Dart class of a declaration, or nil.
func (c *dartCase) Data(d *model.Data) *dart.Class     { return c.class(d.File, "data", d.Name) }
func (c *dartCase) Enum(e *model.Enum) *dart.Class     { return c.class(e.File, "enum", e.Name) }
func (c *dartCase) Server(s *model.Server) *dart.Class { return c.class(s.File, "server", s.Name) }

// fresh gives the interpreter its steps anew.
func (c *dartCase) fresh() *dart.World {
	c.W.Steps = 3_000_000
	return c.W
}

// dartTodo is something to do in one schema's Dart, with its verdict.
type dartTodo struct {
	c    *dartCase
	what string
	f    func() (key, detail string)
}

// dartPerform runs operations, those of different schemas side by side, and reports the verdicts in order.
func dartPerform(r *report.Run, ts []*dartTodo) {
	by := map[*dartCase][]int{}
	var cs []*dartCase
	for i, t := range ts {
		if by[t.c] == nil {
			cs = append(cs, t.c)
		}
		by[t.c] = append(by[t.c], i)
	}
	keys, details := make([]string, len(ts)), make([]string, len(ts))
	cli.Parallel(8, len(cs), time.Now().Add(time.Hour), func(k int) {
		for _, i := range by[cs[k]] {
			cs[k].fresh()
			keys[i], details[i] = ts[i].f()
		}
	})
	for i, t := range ts {
		if i%197 == 0 {
			r.Sample(map[string]any{"dart": t.what, "verdict": keys[i]})
		}
		if keys[i] != "" {
			r.Violation("dart-"+keys[i], t.what+": "+details[i], t.c.Replay(t.what+"\n"+details[i]))
		}
	}
}

// ---- values ----

// dartBad is a value the generated code cannot have or make.
type dartBad struct{ s string }

func dartTry(f func()) (err string) {
	defer func() {
		if x := recover(); x != nil {
			b, ok := x.(dartBad)
			if !ok {
				panic(x)
			}
			err = b.s
		}
	}()
	f()
	return ""
}

func (c *dartCase) ref(x model.Ref, v any) any {
	if v == nil {
		return nil
	}
	s, _ := v.(string)
	switch x.Kind {
	case model.KEnum:
		n, _ := strconv.ParseInt(s, 10, 64)
		k := c.Enum(x.Enum)
		if k == nil {
			panic(dartBad{"there is no class " + model.Hump(x.Enum.Name)})
		}
		o, err := c.W.Static(k, "valueOf", []any{n})
		if err != nil {
			panic(dartBad{err.Error()})
		}
		return o
	case model.KData:
		return c.obj(x.Data, v.(model.Obj))
	}
	switch x.Base {
	case model.Int64, model.Uint64:
		b, _ := new(big.Int).SetString(s, 10)
		return dart.Int64{V: int64(new(big.Int).And(b, new(big.Int).SetUint64(math.MaxUint64)).Uint64())}
	case model.Bool:
		if s != "" { // a key is kept as text
			return s == "true"
		}
		return v
	case model.String:
		return v
	case model.Float, model.Double:
		f, _ := strconv.ParseFloat(s, 64)
		return f
	case model.Date:
		n, _ := strconv.ParseInt(s, 10, 64)
		return dart.DateTime{Us: n * 1000}
	case model.Decimal:
		return dart.ParseDecimal(s)
	}
	n, _ := strconv.ParseInt(s, 10, 64)
	return n
}

// val is the Dart value of a member.
func (c *dartCase) val(t model.Type, v any) any {
	if v == nil {
		return nil
	}
	switch t.Cont {
	case model.Array:
		l := &dart.List{V: []any{}}
		for _, x := range v.(model.List) {
			l.V = append(l.V, c.ref(t.Elem, x))
		}
		return l
	case model.Map:
		m := &dart.Map{}
		for _, p := range v.(model.List) {
			q := p.(model.List)
			m.K, m.V = append(m.K, c.ref(t.Key, q[0])), append(m.V, c.ref(t.Elem, q[1]))
		}
		return m
	}
	return c.ref(t.Elem, v)
}

func (c *dartCase) named(d *model.Data, v model.Obj) map[string]any {
	out := map[string]any{}
	for _, f := range d.AllFields() {
		out[model.Lower(f.Name)] = c.val(f.Type, v[f.Name])
	}
	return out
}

// obj constructs a value of d.
func (c *dartCase) obj(d *model.Data, v model.Obj) any {
	k := c.Data(d)
	if k == nil {
		panic(dartBad{"there is no class " + model.Hump(d.Name)})
	}
	o, err := c.W.New(k, "", nil, c.named(d, v))
	if err != nil {
		panic(dartBad{"constructing: " + err.Error()})
	}
	return o
}

func (c *dartCase) unref(x model.Ref, v any) any {
	if v == nil {
		return nil
	}
	bad := func() any { panic(dartBad{fmt.Sprintf("a %s where a %s is declared", dart.TypeName(v), dartRef(x))}) }
	switch x.Kind {
	case model.KEnum:
		o, ok := v.(*dart.Obj)
		if !ok || o.C != c.Enum(x.Enum) {
			return bad()
		}
		n, err := c.W.Get(o, "value")
		if err != nil {
			panic(dartBad{err.Error()})
		}
		return fmt.Sprint(n)
	case model.KData:
		return c.read(x.Data, v)
	}
	switch x.Base {
	case model.Int64:
		if y, ok := v.(dart.Int64); ok {
			return fmt.Sprint(y.V)
		}
	case model.Uint64:
		if y, ok := v.(dart.Int64); ok {
			return fmt.Sprint(uint64(y.V))
		}
	case model.Bool:
		if _, ok := v.(bool); ok {
			return v
		}
	case model.String:
		if _, ok := v.(string); ok {
			return v
		}
	case model.Float, model.Double:
		if y, ok := v.(float64); ok {
			return strconv.FormatFloat(y, 'g', -1, 64)
		}
	case model.Date:
		if y, ok := v.(dart.DateTime); ok {
			if y.Us%1000 != 0 {
				panic(dartBad{fmt.Sprint("a date with microseconds: ", y.Us)})
			}
			return fmt.Sprint(y.Us / 1000)
		}
	case model.Decimal:
		if y, ok := v.(*dart.Decimal); ok {
			return y.String()
		}
	default:
		if y, ok := v.(int64); ok {
			return fmt.Sprint(y)
		}
	}
	return bad()
}

// unval is the neutral form of a member's Dart value.
func (c *dartCase) unval(t model.Type, v any) any {
	if v == nil {
		return nil
	}
	switch t.Cont {
	case model.Array:
		l, ok := v.(*dart.List)
		if !ok {
			panic(dartBad{"a " + dart.TypeName(v) + " where a list is declared"})
		}
		out := model.List{}
		for _, x := range l.V {
			out = append(out, c.unref(t.Elem, x))
		}
		return out
	case model.Map:
		m, ok := v.(*dart.Map)
		if !ok {
			panic(dartBad{"a " + dart.TypeName(v) + " where a map is declared"})
		}
		out := model.List{}
		for i := range m.K {
			out = append(out, model.List{fmt.Sprint(c.unref(t.Key, m.K[i])), c.unref(t.Elem, m.V[i])})
		}
		sort.SliceStable(out, func(i, j int) bool {
			return fmt.Sprint(out[i].(model.List)[0]) < fmt.Sprint(out[j].(model.List)[0])
		})
		return out
	}
	return c.unref(t.Elem, v)
}

// read reads every member of a value of d.
func (c *dartCase) read(d *model.Data, v any) model.Obj {
	o, ok := v.(*dart.Obj)
	if !ok || o.C == nil || !o.C.Is(model.Hump(d.Name)) {
		panic(dartBad{fmt.Sprintf("a %s where a %s is declared", dart.TypeName(v), model.Hump(d.Name))})
	}
	out := model.Obj{}
	for _, f := range d.AllFields() {
		x, err := c.W.Get(o, model.Lower(f.Name))
		if err != nil {
			panic(dartBad{"reading " + f.Name + ": " + err.Error()})
		}
		out[f.Name] = c.unval(f.Type, x)
	}
	return out
}

// doc writes a value as JSON the way an application does: json.encode(v.toMap()).
func (c *dartCase) doc(v any) string {
	m, err := c.W.Call(v, "toMap", nil, nil)
	if err != nil {
		panic(dartBad{"toMap: " + err.Error()})
	}
	s, err := c.W.EncodeJSON(m)
	if err != nil {
		panic(dartBad{"json.encode: " + err.Error()})
	}
	return s
}

// parse reads a document the way an application does: T.fromMap(json.decode(s)).
func (c *dartCase) parse(d *model.Data, s string) any {
	m, err := dart.Decode(s)
	if err != nil {
		panic(dartBad{"json.decode: " + err.Error()})
	}
	o, err := c.W.Static(c.Data(d), "fromMap", []any{m})
	if err != nil {
		panic(dartBad{"fromMap: " + err.Error()})
	}
	return o
}

// ---- types ----

func dartRef(x model.Ref) string {
	n := ""
	switch x.Kind {
	case model.KBase:
		n = map[string]string{model.Int64: "Int64", model.Uint64: "Int64", model.Float: "double", model.Double: "double", model.Bool: "bool", model.String: "String", model.Date: "DateTime", model.Decimal: "Decimal"}[x.Base]
		if n == "" {
			n = "int"
		}
	case model.KEnum:
		n = model.Hump(x.Enum.Name)
	case model.KData:
		n = model.Hump(x.Data.Name)
	}
	if x.Null {
		n += "?"
	}
	return n
}

func dartType(t model.Type) string {
	n := dartRef(t.Elem)
	switch t.Cont {
	case model.Array:
		n = "List<" + n + ">"
	case model.Map:
		n = "Map<" + dartRef(t.Key) + "," + n + ">"
	default:
		return n
	}
	if t.ContNull {
		n += "?"
	}
	return n
}

func dartText(t *dart.Type) string {
	if t == nil {
		return ""
	}
	n := t.Name
	if t.Fn {
		n = "Function"
	}
	for i, a := range t.Args {
		n += map[bool]string{true: "<", false: ","}[i == 0] + dartText(a)
	}
	if len(t.Args) > 0 {
		n += ">"
	}
	if t.Null {
		n += "?"
	}
	return n
}

func typeNames(ts []*dart.Type) []any {
	out := []any{}
	for _, t := range ts {
		out = append(out, dartText(t))
	}
	return out
}
