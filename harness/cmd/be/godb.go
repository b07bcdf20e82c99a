package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"verif/harness/internal/gows"
	"verif/harness/internal/model"
	"verif/harness/internal/report"
)

func init() {
	checks["C17"] = c17
	checks["C18"] = c18
	checks["C19"] = c19
	checks["C20"] = c20
}

// dbOpts are schemas in which tables and requests have room.
var dbOpts = model.Opts{Files: 2, Decls: 4, Subdirs: true, Packages: true, DotPkg: true, TypeCase: true, Mutual: true, NoZero: true}

// table is a database table with all data that work on it.
type table struct {
	c  *gows.Case
	e  *model.DB
	qs []*model.DB // with the entity first
}

func tables(c *gows.Case) (out []*table) {
	by := map[*model.DB]*table{}
	names := map[string]bool{}
	for _, q := range c.S.DB {
		if q.Entity == q {
			if names[q.Table] {
				continue
			}
			names[q.Table] = true
			by[q] = &table{c: c, e: q, qs: []*model.DB{q}}
			out = append(out, by[q])
		} else if t := by[q.Entity]; t != nil {
			t.qs = append(t.qs, q)
		}
	}
	return
}

func (t *table) create() *gows.Op {
	var defs []string
	for _, c := range t.e.Cols {
		d := c.Raw
		if !c.JSON && c.Type.Elem.Kind == model.KBase && (c.Type.Elem.Base == model.Decimal || c.Type.Elem.Base == model.Uint64) {
			d += " COLLATE NUM"
		}
		defs = append(defs, d)
	}
	return &gows.Op{Op: "create", Text: t.e.Table, Texts: append(defs, model.DeleteTime)}
}

func (t *table) columns() (out []string) {
	for _, c := range t.e.Cols {
		out = append(out, c.Raw)
	}
	return append(out, model.DeleteTime)
}

func (t *table) dump() *gows.Op {
	return &gows.Op{Op: "dump", Text: t.e.Table, Texts: t.columns()}
}

// row is a row of the reference table.
type row struct {
	v    model.Row
	dead bool
	bad  *model.Col // holds cell instead of its value
	cell any
}

func (t *table) newRow(rng *model.Rng) *row {
	x := &row{v: model.Row{}}
	for _, c := range t.e.Cols {
		x.v[c.Id] = rng.DBVal(c.Type)
	}
	return x
}

// cellOf is how a value is stored.
func cellOf(c *model.Col, v any) any {
	if c.JSON {
		b, _ := json.Marshal(model.WireVal(c.Type, v))
		return map[string]any{"s": string(b)}
	}
	if v == nil {
		return nil
	}
	if c.Type.Elem.Kind == model.KEnum {
		return map[string]any{"i": v}
	}
	switch c.Type.Elem.Base {
	case model.Bool:
		if v == true {
			return map[string]any{"i": "1"}
		}
		return map[string]any{"i": "0"}
	case model.Float:
		f, _ := strconv.ParseFloat(v.(string), 32)
		return map[string]any{"f": strconv.FormatFloat(f, 'g', -1, 64)}
	case model.Double:
		return map[string]any{"f": v}
	case model.Date:
		return map[string]any{"d": v}
	case model.Decimal, model.Uint64, model.String:
		return map[string]any{"s": v}
	}
	return map[string]any{"i": v}
}

// cellIs compares a stored cell with a value.
func cellIs(c *model.Col, want, got any, at string) string {
	m := asMap(got)
	kind, text := "", ""
	for k, v := range m {
		kind, text = k, fmt.Sprint(v)
	}
	if c.JSON {
		if got == nil {
			text = "null"
		}
		return goCmp.CheckVal(c.Type, want, decode(text), at)
	}
	var x any
	if got != nil {
		x = text
		switch c.Type.Elem.Base {
		case model.Bool:
			x = text == "1"
		case model.Float, model.Double, model.Date, model.String:
			if k := map[string]string{model.Float: "f", model.Double: "f", model.Date: "d", model.String: "s"}[c.Type.Elem.Base]; k != kind && !(k == "f" && kind == "i") {
				return fmt.Sprintf("%s: stored as %s, want %s", at, model.Show(got), model.Show(want))
			}
		}
	}
	return model.EqualVal(c.Type, want, x, goCmp, at)
}

func (t *table) seed(rows []*row) *gows.Op {
	l := []any{}
	for _, x := range rows {
		var cells []any
		for _, c := range t.e.Cols {
			if c == x.bad {
				cells = append(cells, x.cell)
				continue
			}
			cells = append(cells, cellOf(c, x.v[c.Id]))
		}
		if x.dead {
			cells = append(cells, map[string]any{"d": "1600000000000"})
		} else {
			cells = append(cells, nil)
		}
		l = append(l, cells)
	}
	return &gows.Op{Op: "seed", Text: t.e.Table, Texts: t.columns(), X: l}
}

// sameTable compares a dump with the reference.
func (t *table) sameTable(rows []*row, got any) string {
	l, _ := got.([]any)
	if len(l) != len(rows) {
		return fmt.Sprintf("the table has %d rows, want %d", len(l), len(rows))
	}
	for i, x := range rows {
		cells, _ := l[i].([]any)
		if len(cells) != len(t.e.Cols)+1 {
			return "malformed dump"
		}
		for j, c := range t.e.Cols {
			if e := cellIs(c, x.v[c.Id], cells[j], fmt.Sprintf("row %d column %s", i, c.Raw)); e != "" {
				return e
			}
		}
		if d := cells[len(cells)-1]; (d != nil) != x.dead {
			return fmt.Sprintf("row %d: deleted is %v, want %v", i, d != nil, x.dead)
		} else if k := asMap(d); d != nil && k["d"] == nil {
			return fmt.Sprintf("row %d: delete_time is no time: %s", i, model.Show(d))
		}
	}
	return ""
}

// keys are the keys in the table and some others.
func (t *table) keys(rng *model.Rng, rows []*row) (out []any) {
	for _, x := range rows {
		out = append(out, x.v[t.e.Key.Id])
	}
	return
}

var dbMethods = map[string]string{"insert": "DbInsert", "inserts": "DbInsertList", "update": "DbUpdate", "set": "DbSet", "get": "DbGet", "list": "DbList", "map": "DbMap", "count": "DbCount", "del": "DbDel", "rm": "DbRemove"}

var dbReads = map[string]bool{"get": true, "list": true, "map": true, "count": true}

// dbCall is one call of a generated function.
type dbCall struct {
	t    *table
	q    *model.DB
	op   string
	v    model.Obj
	list []model.Obj // of InsertList
}

func (k *dbCall) String() string {
	s := fmt.Sprintf("%s of %s (%s on %s), %s", dbMethods[k.op], k.q.D.Name, k.q.Role, k.q.Table, model.Show(k.v))
	if k.op == "inserts" {
		s += " with " + model.Show(k.list)
	}
	return s
}

// elem is the type of the elements of InsertList.
func (k *dbCall) elem() *model.Data {
	if k.q.Ops["inserts"] == "parent" {
		return k.q.Entity.D
	}
	return k.q.D
}

func (k *dbCall) step() *gows.Op {
	o := &gows.Op{Op: "call", T: k.t.c.Data(k.q.D), M: dbMethods[k.op], V: gows.ToGo(k.q.D, k.v)}
	if k.op == "inserts" {
		l := model.List{}
		for _, x := range k.list {
			l = append(l, gows.ToGo(k.elem(), x))
		}
		o.X = l
	}
	return o
}

// callOf makes a random call of a function of q.
func (t *table) callOf(rng *model.Rng, q *model.DB, op string, keys []any) *dbCall {
	k := &dbCall{t: t, q: q, op: op, v: rng.DBReq(q, keys)}
	if op == "inserts" {
		w := q
		if k.elem() == q.Entity.D {
			w = q.Entity
		}
		for n := rng.Range(0, 4); n > 0; n-- {
			k.list = append(k.list, rng.DBReq(w, keys))
		}
	}
	return k
}

// calls are the functions the data on the table have.
func (t *table) calls(want func(q *model.DB, op string) bool) (out []dbCall) {
	for _, q := range t.qs {
		var ops []string
		for op := range q.Ops {
			ops = append(ops, op)
		}
		sort.Strings(ops)
		for _, op := range ops {
			if want(q, op) {
				out = append(out, dbCall{t: t, q: q, op: op})
			}
		}
	}
	return
}

// byKey says whether the function addresses a row of the table itself.
func (k *dbCall) byKey() bool {
	if k.q.Role != "entity" && k.q.Role != "view" {
		return false
	}
	switch k.op {
	case "get", "del", "rm", "update", "set":
		return true
	}
	return false
}

// parts are the restrictions of a call.
func (k *dbCall) parts() []model.Part {
	switch {
	case k.op == "insert" || k.op == "inserts":
		return nil
	case k.byKey():
		return k.q.KeyPart(k.v)
	}
	return k.q.Parts(k.v)
}

// stores are the values that an element of the list writes.
func storesOf(q *model.DB, v model.Obj) model.Row {
	x := model.Row{}
	switch {
	case q.Role == "entity":
		for _, c := range q.Cols {
			x[c.Id] = v[c.F.Name]
		}
	case q.Role == "insert":
		for _, s := range q.Sets {
			x[s.Col.Id] = v[s.F.Name]
		}
	default:
		for _, s := range q.Sel {
			x[s.Col.Id] = v[s.F.Name]
		}
	}
	return x
}

// sets are the assignments of an update or set call.
func (k *dbCall) sets() (out []*model.SetX) {
	if k.q.Role == "entity" {
		for _, c := range k.q.Cols {
			out = append(out, &model.SetX{F: c.F, Col: c, Kind: "set"})
		}
	} else {
		out = k.q.Sets
	}
	if k.op == "set" {
		return
	}
	n := out
	out = nil
	for _, s := range n {
		if k.v[s.F.Name] != nil || !s.F.Type.IsNull() || s.Forced() {
			out = append(out, s)
		}
	}
	return
}

// apply performs a write on the reference; n is the number of rows it is about.
func (k *dbCall) apply(rows []*row) (out []*row, n int) {
	out = append(out, rows...)
	switch k.op {
	case "insert":
		return append(out, &row{v: storesOf(k.q, k.v)}), 1
	case "inserts":
		w := k.q
		if k.elem() == k.q.Entity.D {
			w = k.q.Entity
		}
		for _, x := range k.list {
			out = append(out, &row{v: storesOf(w, x)})
		}
		return out, len(k.list)
	}
	ps := k.parts()
	sets := k.sets()
	var left []*row
	for _, x := range out {
		if !model.Matches(ps, x.v) {
			left = append(left, x)
			continue
		}
		n++
		y := &row{v: model.Row{}, dead: x.dead}
		for id, v := range x.v {
			y.v[id] = v
		}
		switch k.op {
		case "rm":
			continue
		case "del":
			if !k.q.Fake {
				continue
			}
			y.dead = true
		case "update", "set":
			for _, s := range sets {
				y.v[s.Col.Id] = assigned(s, x.v[s.Col.Id], k.v[s.F.Name])
			}
		}
		left = append(left, y)
	}
	return left, n
}

func assigned(s *model.SetX, old, v any) any {
	switch s.Kind {
	case "add":
		if old == nil || v == nil {
			return nil
		}
		a, _ := strconv.Atoi(old.(string))
		b, _ := strconv.Atoi(v.(string))
		return strconv.Itoa(a + b)
	case "coalesce":
		if v == nil {
			return old
		}
	case "null":
		return nil
	}
	return v
}

// ---- reads ----

// result is the type of what a read gives.
func (k *dbCall) result() (d *model.Data, sel []*model.Sel) {
	q := k.q
	switch q.Role {
	case "entity", "view", "agg", "getself":
		return q.D, q.Sel
	case "listself":
		return q.Entity.D, q.Sel
	}
	return q.Entity.D, q.Entity.Sel
}

func (k *dbCall) value(d *model.Data, sel []*model.Sel, f func(s *model.Sel) any) model.Obj {
	o := model.Obj{}
	for _, m := range d.AllFields() {
		o[m.Name] = goZero(m.Type)
	}
	for _, s := range sel {
		o[s.F.Name] = f(s)
	}
	return o
}

func selected(s *model.Sel, r model.Row) any {
	v := r[s.Col.Id]
	switch s.Kind {
	case "ifnull":
		if v == nil {
			return `none "x"`
		}
	case "upper":
		if v != nil {
			return strings.Map(func(c rune) rune {
				if c >= 'a' && c <= 'z' {
					return c - 32
				}
				return c
			}, v.(string))
		}
	case "plus1":
		if v != nil {
			n, _ := strconv.Atoi(v.(string))
			return strconv.Itoa(n + 1)
		}
	}
	return v
}

// aggregate gives the rows of a grouped request.
func (k *dbCall) aggregate(rows []model.Row) (out []model.Obj) {
	groups := [][]model.Row{}
	for _, r := range rows {
		found := false
		for i, g := range groups {
			same := true
			for _, c := range k.q.Group {
				if cmpNull(c.Col.Type, g[0][c.Col.Id], r[c.Col.Id]) != 0 {
					same = false
				}
			}
			if same {
				groups[i] = append(g, r)
				found = true
				break
			}
		}
		if !found {
			groups = append(groups, []model.Row{r})
		}
	}
	if len(k.q.Group) == 0 && len(groups) == 0 {
		groups = [][]model.Row{nil}
	}
	for _, g := range groups {
		out = append(out, k.value(k.q.D, k.q.Sel, func(s *model.Sel) any {
			switch s.Kind {
			case "count":
				return strconv.Itoa(len(g))
			case "sum":
				n, any := 0, false
				for _, r := range g {
					if v := r[s.Col.Id]; v != nil {
						m, _ := strconv.Atoi(v.(string))
						n, any = n+m, true
					}
				}
				if !any {
					return nil
				}
				return strconv.Itoa(n)
			case "max", "min":
				var best any
				for _, r := range g {
					v := r[s.Col.Id]
					if v == nil {
						continue
					}
					if best == nil {
						best = v
						continue
					}
					if c := model.CmpVal(s.Col.Type, v, best); s.Kind == "max" && c > 0 || s.Kind == "min" && c < 0 {
						best = v
					}
				}
				return best
			}
			return g[0][s.Col.Id]
		}))
	}
	return
}

// cmpNull orders values with null first.
func cmpNull(t model.Type, a, b any) int {
	switch {
	case a == nil && b == nil:
		return 0
	case a == nil:
		return -1
	case b == nil:
		return 1
	}
	return model.CmpVal(t, a, b)
}

// runs sorts the rows and splits them where the order is not free.
func (k *dbCall) runs(rows []model.Row) [][]model.Row {
	type by struct {
		c    *model.Col
		desc bool
	}
	var keys []by
	if !k.byKey() {
		for _, o := range k.q.Order {
			switch k.v[o.F.Name] {
			case "ASC", "DESC":
				keys = append(keys, by{o.Col, k.v[o.F.Name] == "DESC"})
				if o.Then != nil {
					keys = append(keys, by{o.Then, true})
				}
			}
		}
	}
	cmp := func(a, b model.Row) int {
		for _, b2 := range keys {
			c := cmpNull(b2.c.Type, a[b2.c.Id], b[b2.c.Id])
			if b2.desc {
				c = -c
			}
			if c != 0 {
				return c
			}
		}
		return 0
	}
	l := append([]model.Row{}, rows...)
	sort.SliceStable(l, func(i, j int) bool { return cmp(l[i], l[j]) < 0 })
	var out [][]model.Row
	for i, r := range l {
		if i > 0 && cmp(l[i-1], r) == 0 {
			out[len(out)-1] = append(out[len(out)-1], r)
		} else {
			out = append(out, []model.Row{r})
		}
	}
	return out
}

// window is which of the rows a read is to give.
func (k *dbCall) window(n int) (lo, hi int) {
	hi = n
	if k.op == "get" {
		return 0, min(n, 1)
	}
	if k.q.Limit == nil || k.v[k.q.Limit.Name] == nil {
		return
	}
	lim, _ := strconv.Atoi(k.v[k.q.Limit.Name].(string))
	if k.q.Offset != nil && k.v[k.q.Offset.Name] != nil {
		lo, _ = strconv.Atoi(k.v[k.q.Offset.Name].(string))
	}
	return min(lo, n), min(lo+lim, n)
}

// judge compares the answer of a read with the reference table.
func (k *dbCall) judge(rows []*row, ret any) string {
	var live []model.Row
	ps := k.parts()
	for _, x := range rows {
		if !(k.q.Fake && x.dead) && model.Matches(ps, x.v) {
			live = append(live, x.v)
		}
	}
	l, _ := ret.([]any)
	if len(l) != 1 {
		return "no answer"
	}
	if k.op == "count" {
		if fmt.Sprint(l[0]) != strconv.Itoa(len(live)) {
			return fmt.Sprintf("counted %v rows, want %d", l[0], len(live))
		}
		return ""
	}
	d, sel := k.result()
	conv := func(x any) model.Obj { return gows.FromGo(d, asMap(x)) }
	same := func(want, got model.Obj) bool { return model.EqualObj(d, want, got, goCmp, "") == "" }
	if k.q.Role == "agg" {
		want := k.aggregate(live)
		got, _ := l[0].([]any)
		if len(got) != len(want) {
			return fmt.Sprintf("%d groups, want %d", len(got), len(want))
		}
		return subset(want, got, conv, same)
	}
	runs := k.runs(live)
	lo, hi := k.window(len(live))
	val := func(r model.Row) model.Obj {
		return k.value(d, sel, func(s *model.Sel) any { return selected(s, r) })
	}
	if k.op == "map" {
		got, _ := l[0].([]any)
		return k.judgeMap(runs, lo, hi, got, d, sel, val, conv, same)
	}
	var got []any
	if k.op == "get" {
		if l[0] != nil {
			got = []any{l[0]}
		}
	} else {
		got, _ = l[0].([]any)
		if l[0] == nil {
			return "the list is null"
		}
	}
	if len(got) != hi-lo {
		return fmt.Sprintf("%d rows, want %d of the %d that match", len(got), hi-lo, len(live))
	}
	at := 0
	for _, run := range runs {
		a, b := max(at, lo), min(at+len(run), hi)
		at += len(run)
		if a >= b {
			continue
		}
		var want []model.Obj
		for _, r := range run {
			want = append(want, val(r))
		}
		if e := subset(want, got[a-lo:b-lo], conv, same); e != "" {
			return fmt.Sprintf("answers %d to %d: %s", a-lo, b-lo-1, e)
		}
	}
	return ""
}

// subset says which of got is not in want, counting repetitions.
func subset(want []model.Obj, got []any, conv func(any) model.Obj, same func(a, b model.Obj) bool) string {
	used := make([]bool, len(want))
	for _, x := range got {
		o := conv(x)
		found := false
		for i, w := range want {
			if !used[i] && same(w, o) {
				used[i], found = true, true
				break
			}
		}
		if !found {
			var left []model.Obj
			for i, w := range want {
				if !used[i] {
					left = append(left, w)
				}
			}
			return fmt.Sprintf("%s is none of %s", model.Show(o), model.Show(left))
		}
	}
	return ""
}

func (k *dbCall) judgeMap(runs [][]model.Row, lo, hi int, got []any, d *model.Data, sel []*model.Sel, val func(model.Row) model.Obj, conv func(any) model.Obj, same func(a, b model.Obj) bool) string {
	var key *model.Sel
	for _, s := range sel {
		if s.F == k.q.MapKey {
			key = s
		}
	}
	keyOf := func(r model.Row) string { return fmt.Sprint(selected(key, r)) }
	exact := true
	at := 0
	var in [][]model.Row
	for _, run := range runs {
		a, b := max(at, lo), min(at+len(run), hi)
		if a < b {
			if b-a < len(run) {
				exact = false
			}
			in = append(in, run)
		}
		at += len(run)
	}
	have := map[string]any{}
	for _, p := range got {
		kv, _ := p.([]any)
		if len(kv) != 2 {
			return "malformed map"
		}
		have[fmt.Sprint(kv[0])] = kv[1]
	}
	if len(have) > hi-lo {
		return fmt.Sprintf("%d entries from %d rows", len(have), hi-lo)
	}
	last := map[string][]model.Row{} // of the rows with a key, those that may come last
	for _, run := range in {
		seen := map[string]bool{}
		for _, r := range run {
			id := keyOf(r)
			if exact && !seen[id] {
				last[id] = nil
			}
			seen[id] = true
			last[id] = append(last[id], r)
		}
	}
	for id := range last {
		if _, ok := have[id]; !ok && exact {
			return "no entry for key " + id
		}
	}
	for id, x := range have {
		var want []model.Obj
		for _, r := range last[id] {
			want = append(want, val(r))
		}
		if e := subset(want, []any{x}, conv, same); e != "" {
			return "key " + id + ": " + e
		}
	}
	return ""
}

// stmtsOf are the statements of a step.
func stmtsOf(st map[string]any) (out []map[string]any) {
	l, _ := st["stmts"].([]any)
	for _, x := range l {
		out = append(out, asMap(x))
	}
	return
}

func stepsOf(res gows.Res, n int) []map[string]any {
	l, _ := res["steps"].([]any)
	if len(l) != n {
		return nil
	}
	var out []map[string]any
	for _, x := range l {
		out = append(out, asMap(x))
	}
	return out
}

// ---- checks ----

func dbRun(id, rule string, f func(r *report.Run, t *table, rng *model.Rng) []*todo) {
	r := report.New(id, rule)
	goRun(r, 20, 120, 24, dbOpts, func(rng *model.Rng, s *model.Schema) { model.AddDB(rng, s, id == "C20" || rng.P(0.3)) }, func(b *gows.Batch, rng *model.Rng) {
		var ts []*todo
		for _, c := range b.Good() {
			for _, t := range tables(c) {
				r.Count("tables", 1)
				for _, q := range t.qs {
					r.Seen("kinds of requests", q.Role)
				}
				ts = append(ts, f(r, t, rng)...)
			}
		}
		perform(r, b, ts)
	})
}

// noSpace drops what the layout of a statement may differ in.
func noSpace(s string) string { return strings.Join(strings.Fields(s), "") }

// placeholders counts the question marks outside quotes.
func placeholders(s string) (n int) {
	var q rune
	for _, c := range s {
		switch {
		case q != 0:
			if c == q {
				q = 0
			}
		case c == '\'' || c == '"' || c == '`':
			q = c
		case c == '?':
			n++
		}
	}
	return
}

// hostile lists the telling strings in a value.
func hostile(v any, out *[]string) {
	switch x := v.(type) {
	case string:
		if len(x) >= 3 && x != "ASC" && x != "DESC" && x != "NULL" && strings.ContainsAny(x, `'"$?{};\ %`) || len(x) >= 12 {
			*out = append(*out, x)
		}
	case []any:
		for _, e := range x {
			hostile(e, out)
		}
	case map[string]any:
		for _, e := range x {
			hostile(e, out)
		}
	}
}

// without says whether x is y after the parts are taken away.
func without(x, y string, gone []model.Part) bool {
	if len(gone) == 0 {
		return x == y
	}
	p := noSpace(gone[0].Text)
	for i := 0; i+len(p) <= len(x); i++ {
		if x[i:i+len(p)] == p && without(x[:i]+x[i+len(p):], y, gone[1:]) {
			return true
		}
	}
	return false
}

func (k *dbCall) quiet() bool {
	return k.op == "inserts" && len(k.list) == 0
}

func c17() {
	dbRun("C17", "a call of a generated database function with a random value, one with a value of the same shape and one with a condition member made null; statement texts, placeholders and arguments watched at the driver; non-trivial: the value has conditions, assignments or rows", func(r *report.Run, t *table, rng *model.Rng) (ts []*todo) {
		for _, k := range t.calls(func(*model.DB, string) bool { return true }) {
			for n := 0; n < 6; n++ {
				a := t.callOf(rng, k.q, k.op, nil)
				b := &dbCall{t: t, q: a.q, op: a.op, v: rng.Twin(a.q, a.v)}
				for _, x := range a.list {
					w := a.q
					if a.elem() == a.q.Entity.D {
						w = a.q.Entity
					}
					b.list = append(b.list, rng.Twin(w, x))
				}
				if (a.op == "update" || a.op == "set") && len(a.sets()) == 0 || a.quiet() {
					continue
				}
				op := &gows.Op{Op: "db", Seq: []*gows.Op{t.create(), a.step(), b.step()}}
				// the same with one condition taken away
				var gone []model.Part
				parts := a.parts()
				if !a.byKey() && len(parts) > 0 {
					k := model.Pick(rng, a.q.Conds)
					other := false
					for _, c := range a.q.Conds {
						other = other || c.Other == k.F
					}
					if gone = k.Parts(a.v); len(gone) > 0 && k.F.Type.IsNull() && !other && (a.op == "list" || a.op == "map" || a.op == "count" || a.op == "get" || a.op == "del" || a.op == "rm") {
						c := &dbCall{t: t, q: a.q, op: a.op, v: copyObj(a.v)}
						c.v[k.F.Name] = nil
						op.Seq = append(op.Seq, c.step())
					} else {
						gone = nil
					}
				}
				r.Case(fmt.Sprint(t.c.Data(a.q.D), a), len(parts) > 0 || len(a.list) > 0 || a.op == "insert" || a.op == "update" || a.op == "set")
				r.Count("calls", int64(len(op.Seq)-1))
				ts = append(ts, &todo{c: t.c, op: op, what: a.String(), f: func(res gows.Res) (string, string) {
					steps := stepsOf(res, len(op.Seq))
					if steps == nil {
						return "driver-answer", "too few steps"
					}
					var texts []string
					for i, st := range steps[1:] {
						ss := stmtsOf(st)
						if len(ss) != 1 {
							return "statements", fmt.Sprintf("%d statements, want one; error %v", len(ss), st["err"])
						}
						s := ss[0]
						text := s["text"].(string)
						r.Count("statements", 1)
						r.Seen("statement texts", text)
						texts = append(texts, text)
						if p, a := placeholders(text), fmt.Sprint(s["args"]); strconv.Itoa(p) != a {
							return "placeholders", fmt.Sprintf("%d placeholders and %s arguments in %s", p, a, text)
						}
						if s["err"] != nil {
							return "sql-error", fmt.Sprintf("%v in %s", s["err"], text)
						}
						if st["err"] != nil {
							return "error", fmt.Sprintf("%v after %s", st["err"], text)
						}
						if want := fmt.Sprint([]any{t.e.Table}); fmt.Sprint(st["tables"]) != want {
							return "table", fmt.Sprintf("works on %v, want %s", st["tables"], want)
						}
						if !strings.Contains(text, strings.ReplaceAll(t.e.Table, ".", "__")) {
							return "table", "the table's name is not in " + text
						}
						k := []*dbCall{a, b, nil}[i]
						if k == nil {
							continue
						}
						plain := noSpace(text)
						for _, p := range k.parts() {
							if !strings.Contains(plain, noSpace(p.Text)) {
								return "where", fmt.Sprintf("%q is not in %s", p.Text, text)
							}
						}
						var hs []string
						hostile(k.v, &hs)
						for _, x := range k.list {
							hostile(x, &hs)
						}
						for _, h := range hs {
							if strings.Contains(text, h) && !strings.Contains(`it's "q" \ % it''s "q" \ %`, h) && !strings.Contains(`none "x"`, h) {
								return "value-in-text", fmt.Sprintf("%q is in %s", h, text)
							}
						}
					}
					if texts[0] != texts[1] {
						return "text-depends-on-value", fmt.Sprintf("%s\nand for %s\n%s", texts[0], model.Show(b.v), texts[1])
					}
					if len(texts) > 2 {
						if !without(noSpace(texts[0]), noSpace(texts[2]), gone) {
							return "null-condition", fmt.Sprintf("%s\nwithout %q is\n%s", texts[0], gone[0].Text, texts[2])
						}
					}
					return "", ""
				}})
			}
		}
		for _, q := range t.qs {
			if q.Role != "entity" && q.Role != "view" {
				continue
			}
			var cols []string
			for _, s := range q.Sel {
				c := s.Col.Raw
				if s.Get != "" {
					c = strings.ReplaceAll(s.Get, "?", c)
				}
				cols = append(cols, c)
			}
			ts = append(ts, &todo{c: t.c, op: &gows.Op{Op: "db", Seq: []*gows.Op{{Op: "scan", T: t.c.Data(q.D)}}}, what: "DbScan of " + q.D.Name, f: func(res gows.Res) (string, string) {
				st := stepsOf(res, 1)
				if st == nil {
					return "driver-answer", "too few steps"
				}
				if noSpace(fmt.Sprint(st[0]["cols"])) != noSpace(strings.Join(cols, ",")) || fmt.Sprint(st[0]["n"]) != strconv.Itoa(len(cols)) {
					return "scan", fmt.Sprintf("columns %v with %v targets, want %v", st[0]["cols"], st[0]["n"], cols)
				}
				return "", ""
			}})
		}
		return
	})
}

func c18() {
	dbRun("C18", "a random history of writes (and reads by key) through generated functions on one table, the table compared with a reference after every call; non-trivial: at least three calls changed rows", func(r *report.Run, t *table, rng *model.Rng) (ts []*todo) {
		ks := t.calls(func(q *model.DB, op string) bool { return !dbReads[op] || op == "get" })
		if len(ks) == 0 {
			return
		}
		for n := 0; n < 3; n++ {
			var rows []*row
			for i := rng.Range(0, 5); i > 0; i-- {
				x := t.newRow(rng)
				x.dead = rng.P(0.2)
				rows = append(rows, x)
			}
			op := &gows.Op{Op: "db", Seq: []*gows.Op{t.create(), t.seed(rows)}}
			type step struct {
				k     *dbCall
				rows  []*row
				n     int
				empty bool
			}
			var steps []step
			changed := 0
			for i := rng.Range(8, 20); i > 0; i-- {
				p := model.Pick(rng, ks)
				if len(rows) < 3 {
					for j := 0; j < 4 && p.op != "insert" && p.op != "inserts"; j++ {
						p = model.Pick(rng, ks)
					}
				}
				k := t.callOf(rng, p.q, p.op, t.keys(rng, rows))
				s := step{k: k, rows: rows, empty: (k.op == "update" || k.op == "set") && len(k.sets()) == 0}
				if !s.empty && k.op != "get" {
					s.rows, s.n = k.apply(rows)
				}
				if s.n > 0 {
					changed++
				}
				rows = s.rows
				steps = append(steps, s)
				op.Seq = append(op.Seq, k.step(), t.dump())
				r.Seen("functions", k.q.Role+" "+k.op)
			}
			r.Case(t.c.Data(t.e.D)+model.Show(op.Seq[len(op.Seq)-2].V)+fmt.Sprint(rng.Int()), changed >= 3)
			r.Count("calls", int64(len(steps)))
			r.Count("calls that changed rows", int64(changed))
			ts = append(ts, &todo{c: t.c, op: op, what: "table " + t.e.Table, f: func(res gows.Res) (string, string) {
				out := stepsOf(res, len(op.Seq))
				if out == nil {
					return "driver-answer", "too few steps"
				}
				for i, s := range steps {
					call, dump := out[2+2*i], out[3+2*i]
					at := fmt.Sprintf("call %d, %s: ", i, s.k)
					if s.empty {
						// nothing to assign: a statement no engine takes, or none
					} else if call["err"] != nil {
						return "error-" + s.k.op, at + fmt.Sprint(call["err"])
					} else if s.k.op == "get" {
						if e := s.k.judge(s.rows, call["ret"]); e != "" {
							return "get", at + e
						}
					} else if l, _ := call["ret"].([]any); len(l) != 2 || fmt.Sprint(l[0]) != strconv.Itoa(s.n) {
						return "affected-" + s.k.op, at + fmt.Sprintf("gives %v, want %d rows", call["ret"], s.n)
					}
					if e := t.sameTable(s.rows, dump["rows"]); e != "" {
						return "table-" + s.k.op, at + e
					}
				}
				return "", ""
			}})
		}
		return
	})
}

func c19() {
	dbRun("C19", "a query through a generated function on a table with random rows, its answer compared with a reference evaluation; non-trivial: at least one condition, order or window is in force and at least two rows are in the table", func(r *report.Run, t *table, rng *model.Rng) (ts []*todo) {
		ks := t.calls(func(q *model.DB, op string) bool { return dbReads[op] })
		for n := 0; n < 3 && len(ks) > 0; n++ {
			var rows []*row
			for i := rng.Range(0, 14); i > 0; i-- {
				x := t.newRow(rng)
				if len(rows) > 0 && rng.P(0.2) {
					y := model.Pick(rng, rows)
					for id := range x.v {
						if rng.P(0.7) {
							x.v[id] = y.v[id]
						}
					}
				}
				x.dead = rng.P(0.2)
				rows = append(rows, x)
			}
			op := &gows.Op{Op: "db", Seq: []*gows.Op{t.create(), t.seed(rows)}}
			var calls []*dbCall
			for _, p := range ks {
				for i := 0; i < 5; i++ {
					k := t.callOf(rng, p.q, p.op, t.keys(rng, rows))
					calls = append(calls, k)
					op.Seq = append(op.Seq, k.step())
					inForce := len(k.parts()) > 0
					for _, o := range k.q.Order {
						inForce = inForce || k.v[o.F.Name] == "ASC" || k.v[o.F.Name] == "DESC"
					}
					r.Case(fmt.Sprint(t.c.Data(k.q.D), k, model.Show(op.Seq[1].X)), len(rows) > 1 && inForce)
					r.Seen("functions", k.q.Role+" "+k.op)
					for _, c := range k.q.Conds {
						r.Seen("kinds of conditions", c.Kind)
					}
				}
			}
			r.Count("queries", int64(len(calls)))
			ts = append(ts, &todo{c: t.c, op: op, what: "table " + t.e.Table, f: func(res gows.Res) (string, string) {
				out := stepsOf(res, len(op.Seq))
				if out == nil {
					return "driver-answer", "too few steps"
				}
				for i, k := range calls {
					st := out[2+i]
					text := ""
					for _, s := range stmtsOf(st) {
						text += fmt.Sprint(s["text"])
					}
					if st["err"] != nil {
						return "error-" + k.op, fmt.Sprintf("%s: %v\n%s", k, st["err"], text)
					}
					if l, _ := st["ret"].([]any); len(l) == 1 {
						switch x := l[0].(type) {
						case []any:
							r.Count("rows returned", int64(len(x)))
						case nil:
							r.Count("empty answers", 1)
						}
					}
					if e := k.judge(rows, st["ret"]); e != "" {
						return k.op + "-" + k.q.Role, fmt.Sprintf("%s: %s\n%s\nanswer %s", k, e, text, model.Show(st["ret"]))
					}
				}
				return "", ""
			}})
		}
		if x := t.unreadable(r, rng, ks); x != nil {
			ts = append(ts, x)
		}
		return
	})
}

// unreadable reads a table one of whose rows holds what its member cannot: an
// answer that would hold the row is an error, and any other is as ever.
func (t *table) unreadable(r *report.Run, rng *model.Rng, ks []dbCall) *todo {
	var cols []*model.Col
	for _, c := range t.e.Cols {
		if c.JSON || c.Type.Cont != model.None || c == t.e.Key {
			continue
		}
		if c.Type.Elem.Kind == model.KBase {
			switch c.Type.Elem.Base {
			case model.Uint64, model.Decimal, model.Date:
				continue
			case model.String:
				if c.Type.Elem.Null {
					continue
				}
			}
		} else if c.Type.Elem.Kind != model.KEnum || c.Type.Elem.Null {
			continue
		}
		cols = append(cols, c)
	}
	if len(cols) == 0 {
		return nil
	}
	var rows []*row
	for i := rng.Range(1, 9); i > 0; i-- {
		x := t.newRow(rng)
		x.dead = rng.P(0.1)
		rows = append(rows, x)
	}
	bad := model.Pick(rng, rows)
	bad.bad, bad.dead = model.Pick(rng, cols), rng.P(0.05)
	if b := bad.bad.Type.Elem; !b.Null && b.Base != model.Int64 && (b.Kind == model.KEnum || b.Base == model.String || rng.P(0.5)) {
		bad.cell = nil
	} else {
		bad.cell = map[string]any{"s": "no value"}
	}
	op := &gows.Op{Op: "db", Seq: []*gows.Op{t.create(), t.seed(rows)}}
	var calls []*dbCall
	for _, p := range ks {
		if p.op == "count" || p.q.Role == "agg" {
			continue
		}
		free := func(cs ...*model.Col) bool {
			for _, c := range cs {
				if c == bad.bad {
					return false
				}
			}
			return true
		}
		ok := true
		for _, c := range p.q.Conds {
			ok = ok && free(c.Col, c.Col2)
		}
		for _, o := range p.q.Order {
			ok = ok && free(o.Col, o.Then)
		}
		_, sel := p.result()
		fills := false
		for _, s := range sel {
			fills = fills || s.Col == bad.bad && s.Kind == ""
			ok = ok && (s.Col != bad.bad || s.Kind == "")
		}
		for i := 0; ok && fills && i < 4; i++ {
			k := t.callOf(rng, p.q, p.op, t.keys(rng, rows))
			calls = append(calls, k)
			op.Seq = append(op.Seq, k.step())
		}
	}
	if len(calls) == 0 {
		return nil
	}
	return &todo{c: t.c, op: op, what: "table " + t.e.Table + ", a row holds " + model.Show(bad.cell) + " in " + bad.bad.Raw, f: func(res gows.Res) (string, string) {
		out := stepsOf(res, len(op.Seq))
		if out == nil {
			return "driver-answer", "too few steps"
		}
		for i, k := range calls {
			st := out[2+i]
			in, sure := k.gives(rows, bad)
			if !sure {
				r.Count("answers that may hold an unreadable row", 1)
				continue
			}
			text := ""
			for _, s := range stmtsOf(st) {
				text += fmt.Sprint(s["text"])
			}
			switch {
			case in && st["err"] == nil:
				return "unreadable-" + k.op, fmt.Sprintf("%s: no error\n%s\nanswer %s", k, text, model.Show(st["ret"]))
			case in:
				r.Count("unreadable rows reported", 1)
			case st["err"] != nil:
				return "error-" + k.op, fmt.Sprintf("%s: %v\n%s", k, st["err"], text)
			default:
				r.Count("unreadable rows elsewhere", 1)
				if e := k.judge(rows, st["ret"]); e != "" {
					return k.op + "-" + k.q.Role, fmt.Sprintf("%s: %s\n%s\nanswer %s", k, e, text, model.Show(st["ret"]))
				}
			}
		}
		return "", ""
	}}
}

// gives says whether a read gives the row, and whether that is settled.
func (k *dbCall) gives(rows []*row, the *row) (in, sure bool) {
	var live []model.Row
	ps := k.parts()
	found := false
	the.v["\x00"] = true
	defer delete(the.v, "\x00")
	for _, x := range rows {
		if !(k.q.Fake && x.dead) && model.Matches(ps, x.v) {
			live = append(live, x.v)
			found = found || x == the
		}
	}
	if !found {
		return false, true
	}
	lo, hi := k.window(len(live))
	at := 0
	for _, run := range k.runs(live) {
		a, b := at, at+len(run)
		at = b
		for _, r := range run {
			if r["\x00"] == true {
				if lo <= a && b <= hi {
					return true, true
				}
				return false, b <= lo || a >= hi
			}
		}
	}
	return false, false
}

func c20() {
	dbRun("C20", "a random history of reads and writes with faults, performed with a cache and without one; results compared call by call, cache events and locks watched; non-trivial: a read was answered from the cache and a write came between reads", func(r *report.Run, t *table, rng *model.Rng) (ts []*todo) {
		if !t.e.Cached {
			return
		}
		reads := t.calls(func(q *model.DB, op string) bool { return dbReads[op] })
		writes := t.calls(func(q *model.DB, op string) bool { return !dbReads[op] })
		if len(reads) == 0 {
			return
		}
		for n := 0; n < 3; n++ {
			var rows []*row
			for i := rng.Range(0, 6); i > 0; i-- {
				x := t.newRow(rng)
				x.dead = rng.P(0.2)
				rows = append(rows, x)
			}
			keys := t.keys(rng, rows)
			var pool []*dbCall
			for i := rng.Range(2, 5); i > 0; i-- {
				p := model.Pick(rng, reads)
				pool = append(pool, t.callOf(rng, p.q, p.op, keys))
			}
			type step struct {
				k        *dbCall
				fail     string // the engine fails
				cfail    string // the cache operation that fails
				again    bool   // the same read directly before, without faults
				dropped  bool   // not performed without the cache
				plain    int    // its index without the cache
				hopeless bool   // has nothing to assign
			}
			var steps []*step
			with := &gows.Op{Op: "db", Seq: []*gows.Op{t.create(), t.seed(rows)}, Opt: map[string]string{"cache": "1"}}
			plain := &gows.Op{Op: "db", Seq: []*gows.Op{t.create(), t.seed(rows)}}
			for i := rng.Range(10, 24); i > 0; i-- {
				s := &step{}
				if len(writes) > 0 && rng.P(0.3) {
					p := model.Pick(rng, writes)
					s.k = t.callOf(rng, p.q, p.op, keys)
					s.hopeless = (s.k.op == "update" || s.k.op == "set") && len(s.k.sets()) == 0
				} else {
					s.k = model.Pick(rng, pool)
					if l := len(steps); l > 0 && steps[l-1].k == s.k && steps[l-1].fail+steps[l-1].cfail == "" {
						s.again = true
					}
				}
				if rng.P(0.12) {
					s.fail = "the database is gone"
				}
				if rng.P(0.15) {
					s.cfail = model.Pick(rng, []string{"get", "set", "del"})
				}
				a, b := s.k.step(), s.k.step()
				a.Opt = map[string]string{"fail": s.fail, "cachefail": s.cfail}
				b.Opt = map[string]string{"fail": s.fail}
				with.Seq = append(with.Seq, a)
				if !dbReads[s.k.op] && s.cfail == "del" && !s.k.quiet() {
					s.dropped = true
				} else {
					s.plain = len(plain.Seq)
					plain.Seq = append(plain.Seq, b)
				}
				steps = append(steps, s)
			}
			with.Seq = append(with.Seq, t.dump())
			plain.Seq = append(plain.Seq, t.dump())
			var other gows.Res
			what := "table " + t.e.Table
			ts = append(ts, &todo{c: t.c, op: plain, what: what + " without a cache", f: func(res gows.Res) (string, string) {
				other = res
				return "", ""
			}})
			ts = append(ts, &todo{c: t.c, op: with, what: what + " with a cache", f: func(res gows.Res) (string, string) {
				x, y := stepsOf(res, len(with.Seq)), stepsOf(other, len(plain.Seq))
				if x == nil || y == nil {
					return "driver-answer", "too few steps"
				}
				hits, writesSeen := 0, 0
				for i, s := range steps {
					a := x[2+i]
					at := fmt.Sprintf("call %d, %s, database fault %q, cache fault %q: ", i, s.k, s.fail, s.cfail)
					evs, _ := a["cache"].([]any)
					stmts := stmtsOf(a)
					read := dbReads[s.k.op]
					r.Count("cache events", int64(len(evs)))
					if fmt.Sprint(a["locked"]) != "0" {
						return "lock-kept", at + "a lock is still held"
					}
					hit := read && len(stmts) == 0
					if hit {
						hits++
						r.Count("reads from the cache", 1)
						if s.cfail == "get" {
							return "hit-without-cache", at + "an answer without asking anything"
						}
					}
					if !read && !s.k.quiet() {
						writesSeen++
						first := map[string]any{}
						if len(evs) > 0 {
							first = asMap(evs[0])
						}
						if first["op"] != "del" || fmt.Sprint(first["at"]) != "0" || fmt.Sprint(first["table"]) != strings.ReplaceAll(t.e.Table, ".", "__") {
							return "no-invalidation", at + "the write does not start with dropping the entries: " + model.Show(evs)
						}
						unlocked := false
						for _, e := range evs {
							m := asMap(e)
							if m["op"] == "unlock" && fmt.Sprint(m["at"]) != strconv.Itoa(len(stmts)) {
								return "early-unlock", at + "the lock is released before the statement: " + model.Show(evs)
							}
							unlocked = unlocked || m["op"] == "unlock"
						}
						if s.dropped {
							if a["err"] == nil || len(stmts) != 0 {
								return "write-despite-cache", at + "the entries could not be dropped, but the write went on"
							}
							continue
						}
						if !unlocked {
							return "lock-kept", at + "no lock is released: " + model.Show(evs)
						}
					}
					for _, e := range evs {
						m := asMap(e)
						if m["op"] != "set" {
							continue
						}
						d, _ := strconv.Atoi(fmt.Sprint(m["dur"]))
						r.Seen("lifetimes", fmt.Sprint(d))
						if d < s.k.q.Min || d > s.k.q.Max || s.k.q.Min == 0 && d != 0 {
							return "lifetime", at + fmt.Sprintf("an entry lives %d seconds, declared are %d to %d", d, s.k.q.Min, s.k.q.Max)
						}
						if s.fail != "" {
							return "caches-failure", at + "a failed read is put into the cache"
						}
					}
					// JSON has no objects with boolean names, such answers cannot be kept
					odd := s.k.op == "map" && s.k.q.MapKey.Type.Elem.Base == model.Bool
					if s.again && s.cfail != "get" && !hit && !odd {
						return "no-hit", at + "a repeated read is not answered from the cache: " + model.Show(evs)
					}
					b := y[s.plain]
					if hit && s.fail != "" {
						// the answer did not need the database
						if a["err"] != nil {
							return "error", at + fmt.Sprint(a["err"])
						}
						continue
					}
					if (a["err"] == nil) != (b["err"] == nil) {
						return "error-differs", at + fmt.Sprintf("error %v, without a cache %v", a["err"], b["err"])
					}
					if !read {
						if model.Show(a["ret"]) != model.Show(b["ret"]) {
							return "write-differs", at + fmt.Sprintf("gives %s, without a cache %s", model.Show(a["ret"]), model.Show(b["ret"]))
						}
						continue
					}
					if e := s.k.sameAnswer(b["ret"], a["ret"]); e != "" {
						return "stale", at + e
					}
				}
				if e := sameDump(x[len(x)-1], y[len(y)-1]); e != "" {
					return "table", e
				}
				r.Case(t.c.Data(t.e.D)+what+fmt.Sprint(n)+model.Show(with.Seq[len(with.Seq)-2].V), hits > 0 && writesSeen > 0)
				r.Count("calls", int64(len(steps)))
				return "", ""
			}})
		}
		return
	})
}

func sameDump(a, b map[string]any) string {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	if string(x) != string(y) {
		return fmt.Sprintf("the table ends as %s, without a cache as %s", model.Show(a), model.Show(b))
	}
	return ""
}

// sameAnswer compares two answers of a read.
func (k *dbCall) sameAnswer(want, got any) string {
	a, _ := want.([]any)
	b, _ := got.([]any)
	if len(a) != len(b) {
		return "answers differ"
	}
	d, _ := k.result()
	for i := range a {
		if k.op == "count" {
			if fmt.Sprint(a[i]) != fmt.Sprint(b[i]) {
				return fmt.Sprintf("counted %v, without a cache %v", b[i], a[i])
			}
			continue
		}
		ty := model.Type{Elem: model.Ref{Kind: model.KData, Data: d, Null: true}}
		switch k.op {
		case "list":
			ty.Cont = model.Array
		case "map":
			ty.Cont = model.Map
		}
		if e := model.EqualVal(ty, gows.TypeFromGo(ty, a[i]), gows.TypeFromGo(ty, b[i]), goCmp, "answer"); e != "" {
			return e
		}
	}
	return ""
}
