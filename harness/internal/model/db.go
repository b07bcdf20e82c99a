package model

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Col is a column of a table.
type Col struct {
	F     *Field
	Raw   string // as written in SQL
	Id    string // canonical name
	Type  Type
	JSON  bool
	Force bool
	SetQ  bool // the member says set="?"
}

// Sel is a member that a query fills.
type Sel struct {
	F    *Field
	Col  *Col
	Get  string // expression, "" for the column
	Kind string // meaning of Get: "", ifnull, upper, plus1, count, sum, max, min
}

// Cond is a member that restricts the rows.
type Cond struct {
	F         *Field
	Kind      string
	Op        string
	Op2       string
	Col, Col2 *Col
	Other     *Field
	Lit       string
	Text      []string
}

// OrderBy is a member that says in which direction to order.
type OrderBy struct {
	F     *Field
	Col   *Col
	Then  *Col // also ordered by, descending
	Group bool
}

// SetX is a member that changes a column.
type SetX struct {
	F    *Field
	Col  *Col
	Kind string // set, add, coalesce, null
}

// DB is a data with a db tag.
type DB struct {
	D      *Data
	Role   string
	Entity *DB // of its table
	Table  string
	Fake   bool
	Cached bool
	Min    int // of the time an entry lives
	Max    int
	Cols   []*Col // of entities
	Key    *Col
	Sel    []*Sel
	Conds  []*Cond
	Order  []*OrderBy
	Limit  *Field
	Offset *Field
	Sets   []*SetX
	Group  []*OrderBy
	Ops    map[string]string
	MapKey *Field
}

// HasDB says whether a function is generated.
func (d *DB) HasDB(op string) bool { return d.Ops[op] != "" }

// DeleteTime is the column that soft deletion sets.
const DeleteTime = "delete_time"

var dbPools = map[string][]string{
	Int8: {"0", "1", "2", "3", "5", "-1", "127"}, Int16: {"0", "1", "2", "3", "7", "-4"}, Int32: {"0", "1", "2", "3", "5", "-1", "2147483647"},
	Int64: {"0", "1", "2", "3", "-4", "9007199254740993", "9223372036854775807"},
	Uint8: {"0", "1", "2", "3", "255"}, Uint16: {"0", "1", "2", "9"}, Uint32: {"0", "1", "2", "3", "4294967295"},
	Uint64: {"0", "1", "2", "3", "9223372036854775808", "18446744073709551615", "9999999999999999999"},
	Float:  {"0", "1.5", "-2.25", "3", "100"}, Double: {"0", "0.1", "-2.5", "3", "1e9"},
	String:  {"a", "b", "ab", "a%", "_b", "it's", `x"y`, "z'; DROP TABLE t; --", "?", "${x} $ ?{y}", "ü", "", " lead", "A", `back\slash`, "%", "line\nbreak", "ASC", "NULL", "1 OR 1=1"},
	Date:    {"0", "1", "-1", "1700000000123", "1700000000124", "951827400000"},
	Decimal: {"0", "1", "1.5", "-0.25", "10", "2", "12345678901234567890.123"},
}

// DBVal is a value for a column or a member compared with one.
func (r *Rng) DBVal(t Type) any {
	if t.Cont != None {
		if t.ContNull && r.P(0.25) {
			return nil
		}
		if t.Cont == Array && t.Elem.Kind != KData {
			out := List{}
			for i := r.Range(1, 4); i > 0; i-- {
				out = append(out, r.DBVal(Type{Elem: t.Elem}))
			}
			return out
		}
		return r.TypeVal(t, 1)
	}
	if t.Elem.Null && r.P(0.3) {
		return nil
	}
	if t.Elem.Kind == KBase && t.Elem.Base != Bool {
		return Pick(r, dbPools[t.Elem.Base])
	}
	t.Elem.Null = false
	return r.refVal(t.Elem, 1)
}

// AddDB gives every file tables and requests for them.
func AddDB(r *Rng, s *Schema, cache bool) {
	g := &Gen{R: r, O: Opts{Bases: BaseTypes, MapKeys: MapKeyBases, NoMaps: false}, types: map[string]bool{}, extended: map[*Server]bool{}}
	for _, f := range s.Files {
		for _, d := range f.Decls {
			g.types[norm(d.DeclName())] = true
		}
	}
	for _, f := range s.Files {
		g.addDB(s, f, Domain{DB: true, Cache: cache})
	}
}

func (g *Gen) addDB(s *Schema, f *File, o Domain) {
	r := g.R
	if g.O.Bases == nil {
		g.O.Bases, g.O.MapKeys = BaseTypes, MapKeyBases
	}
	for n := r.Range(1, 2); n > 0; n-- {
		e := g.entity(s, f, o.Cache && r.P(0.7))
		s.DB = append(s.DB, e)
	}
	var es []*DB
	for _, d := range s.DB {
		if d.Entity == d {
			for _, x := range append([]*File{f}, f.Imports...) {
				if x == d.D.File {
					es = append(es, d)
				}
			}
		}
	}
	for n := r.Range(2, 5); n > 0; n-- {
		if q := g.request(f, Pick(r, es)); q != nil {
			s.DB = append(s.DB, q)
		}
	}
	if r.P(0.1) {
		// a table without columns has no functions
		d := &Data{File: f, Name: g.TypeName(typeWords, []string{"Bare"})}
		d.Tags = []Tag{{Name: "db", KVs: []KV{{Key: "get", Values: []string{"self"}}, {Key: "del", Values: []string{"true"}}}}}
		f.Decls = append(f.Decls, d)
	}
}

type dbTag struct{ Tag }

func (t *dbTag) kv(k string, v ...string) {
	t.KVs = append(t.KVs, KV{Key: k, Values: v})
}

func (g *Gen) finishTag(t *dbTag) Tag {
	t.Name = "db"
	g.R.Shuffle(len(t.KVs), func(i, j int) { t.KVs[i], t.KVs[j] = t.KVs[j], t.KVs[i] })
	return t.Tag
}

func (g *Gen) says(v string) string {
	if g.R.P(0.15) {
		return Pick(g.R, []string{strings.ToUpper(v), capWord(v)})
	}
	return v
}

// cacheTag marks d as cached.
func (g *Gen) cacheTag(d *DB) {
	r := g.R
	d.Cached = true
	d.Min, d.Max = 2*60*60, 3*60*60
	t := Tag{Name: "cache"}
	set := func(k string, n int) {
		t.KVs = append(t.KVs, KV{Key: k, Values: []string{strconv.Itoa(n)}})
	}
	switch r.Intn(6) {
	case 0:
	case 1:
		d.Min = r.Range(1, 100)
		d.Max = d.Min + r.Range(1, 100)
		set("min", d.Min)
		set("max", d.Max)
	case 2:
		d.Min = r.Range(1, 100)
		d.Max = d.Min
		set("max", d.Max)
		set("min", d.Min)
	case 3:
		d.Min, d.Max = 0, 0
		set("min", 0)
	case 4:
		d.Max = r.Range(1, 100)
		set("max", d.Max)
		d.Min = d.Max
	case 5:
		d.Min = r.Range(1, 20000)
		set("min", d.Min)
		if d.Max < d.Min {
			d.Max = d.Min
		}
	}
	d.D.Tags = append(d.D.Tags, t)
}

var keyBases = []string{Int64, Int64, Int32, Uint64, String, Uint32, Int16}

func (g *Gen) colType(f *File) (Type, bool) {
	r := g.R
	es, _, _ := g.visible(f)
	switch {
	case len(es) > 0 && r.P(0.12):
		return Type{Elem: Ref{Kind: KEnum, Enum: Pick(r, es), Null: r.P(0.5)}}, false
	case r.P(0.18):
		for i := 0; i < 5; i++ {
			if t := g.typ(f); (t.Cont != None || t.Elem.Kind == KData) && !t.HasBytes() {
				return t, true
			}
		}
	}
	return Type{Elem: Ref{Kind: KBase, Base: Pick(r, BaseTypes), Null: r.P(0.5)}}, false
}

func (g *Gen) entity(s *Schema, f *File, cached bool) *DB {
	r := g.R
	d := &Data{File: f, Name: g.TypeName(typeWords, []string{"Table", "Entity", "Rec", ""})}
	e := &DB{D: d, Role: "entity", Fake: r.P(0.6), Ops: map[string]string{}}
	e.Entity = e
	used := map[string]bool{"deletetime": true, norm(d.Name): true}
	holder := d
	var base *Data
	if r.P(0.3) {
		base = &Data{File: f, Name: g.TypeName(typeWords, []string{"Common", "Base"})}
		used[norm(base.Name)] = true
		d.Extends = append(d.Extends, Ext{Data: base, Id: "1"})
		holder = base
	}
	ids := map[string]bool{DeleteTime: true}
	n := r.Range(3, 8)
	keyAt := 0
	if r.P(0.3) {
		keyAt = r.Intn(n)
	}
	for i := 0; i < n; i++ {
		if holder == base && i >= r.Range(1, 3) {
			holder = d
		}
		c := &Col{}
		if i == keyAt {
			c.Type = Type{Elem: Ref{Kind: KBase, Base: Pick(r, keyBases)}}
		} else {
			c.Type, c.JSON = g.colType(f)
		}
		c.F = &Field{Type: c.Type, Name: g.FieldName(fieldWords, fieldWords2, used), Id: strconv.Itoa(i)}
		var t dbTag
		c.Raw = Snake(c.F.Name)
		if r.P(0.3) {
			x := Pick(r, []string{"c_" + strconv.Itoa(i), "colName" + strconv.Itoa(i), "`order`", "X" + strconv.Itoa(i) + "_URL", "`two words`", "name"})
			if !ids[canon(x)] {
				c.Raw = x
				t.kv("name", x)
			}
		}
		c.Id = canon(c.Raw)
		if ids[c.Id] {
			continue
		}
		ids[c.Id] = true
		if i == keyAt {
			e.Key = c
			if keyAt != 0 || r.P(0.8) {
				t.kv("key", "true")
			}
		}
		if c.JSON {
			t.kv("converter", "json")
		}
		if c.Type.IsNull() && r.P(0.2) {
			c.Force = true
			t.kv("force", g.says("true"))
		}
		if i != keyAt && r.P(0.3) {
			c.SetQ = true
			t.kv("set", "?")
		}
		c.F.Tags = append(c.F.Tags, g.finishTag(&t))
		holder.Fields = append(holder.Fields, c.F)
		e.Cols = append(e.Cols, c)
		e.Sel = append(e.Sel, &Sel{F: c.F, Col: c})
		if r.P(0.1) {
			holder.Fields = append(holder.Fields, &Field{Type: Type{Elem: Ref{Kind: KBase, Base: Int32}}, Name: g.FieldName(fieldWords, fieldWords2, used), Id: strconv.Itoa(50 + i)})
		}
	}
	if e.Key == nil {
		return g.entity(s, f, cached)
	}
	var t dbTag
	e.Table = Snake(d.Name)
	if r.P(0.4) || e.Table == "order" || e.Table == "index" || e.Table == "table" {
		e.Table = "t_" + e.Table
		t.kv("name", e.Table)
	}
	if r.P(0.2) {
		t.kv("schema", "main_db")
		e.Table = "main_db." + e.Table
	}
	if !e.Fake {
		t.kv("fake", "false")
	} else if r.P(0.2) {
		t.kv("fake", g.says("true"))
	}
	for _, op := range []string{"insert", "inserts", "update", "set", "get", "list"} {
		if r.P(0.7) {
			e.Ops[op] = "self"
			t.kv(op, g.says("self"))
		}
	}
	if e.Ops["get"] != "" && r.P(0.2) {
		for i := range t.KVs {
			if t.KVs[i].Key == "get" {
				t.KVs[i].Values[0] = "parent"
			}
		}
	}
	for op, k := range map[string]string{"del": "del", "rm": "rm", "count": "count"} {
		if r.P(0.6) {
			e.Ops[op] = "true"
			t.kv(k, g.says("true"))
		}
	}
	sort.Slice(t.KVs, func(i, j int) bool { return t.KVs[i].Key < t.KVs[j].Key })
	if r.P(0.6) {
		g.mapKey(e, &t, "self", e.Sel)
	}
	d.Tags = append(d.Tags, g.finishTag(&t))
	if cached {
		g.cacheTag(e)
	}
	if base != nil {
		f.Decls = append(f.Decls, base)
	}
	f.Decls = append(f.Decls, d)
	return e
}

// canon is the column a written name means.
func canon(raw string) string { return strings.ToLower(strings.Trim(raw, "`")) }

func (g *Gen) mapKey(d *DB, t *dbTag, who string, sel []*Sel) {
	var ks []*Sel
	for _, x := range sel {
		ty := x.F.Type
		if ty.Cont != None || ty.Elem.Null || x.Get != "" {
			continue
		}
		switch {
		case ty.Elem.Kind == KEnum, ty.Elem.Kind == KBase && (IsInt(ty.Elem.Base) || ty.Elem.Base == String || ty.Elem.Base == Bool):
			ks = append(ks, x)
		}
	}
	if len(ks) == 0 {
		return
	}
	d.MapKey = Pick(g.R, ks).F
	d.Ops["map"] = who
	t.kv("map", d.MapKey.Name+":"+g.says(who))
}

// condCols are the columns that members of f can be compared with.
func (g *Gen) condCols(f *File, e *DB) (out []*Col) {
	for _, c := range e.Cols {
		if !c.JSON && g.usable(f, c.Type) {
			out = append(out, c)
		}
	}
	return
}

func (g *Gen) request(f *File, e *DB) *DB {
	r := g.R
	d := &Data{File: f}
	q := &DB{D: d, Entity: e, Fake: e.Fake, Ops: map[string]string{}, Table: e.Table, Key: e.Key}
	q.Role = Pick(r, []string{"view", "agg", "query", "query", "getself", "listself", "delete", "change", "insert", "inserts", "child"})
	d.Name = g.TypeName(typeWords, []string{"Req", "Query", "Find", "Change"})
	used := map[string]bool{norm(d.Name): true}
	cols := g.condCols(f, e)
	if len(cols) == 0 {
		return nil
	}
	var t dbTag
	id := 0
	member := func(ty Type, tag dbTag) *Field {
		id++
		fl := &Field{Type: ty, Name: g.FieldName(append([]string{"min", "max", "like", "ids", "by", "only"}, fieldWords...), fieldWords2, used), Id: strconv.Itoa(id), Tags: []Tag{g.finishTag(&tag)}}
		d.Fields = append(d.Fields, fl)
		return fl
	}
	// plain members that stand for columns
	plain := func(n int, key, get, same bool) {
		list := append([]*Col{}, e.Cols...)
		r.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
		have := map[*Col]bool{}
		if key {
			list = append([]*Col{e.Key}, list...)
		}
		for _, c := range list {
			if have[c] || !g.usable(f, c.Type) || len(q.Sel) >= n {
				continue
			}
			have[c] = true
			var t dbTag
			ty := c.Type
			s := &Sel{Col: c}
			if c.JSON {
				t.kv("converter", "json")
			} else if get && c != e.Key && r.P(0.4) && ty.Elem.Kind == KBase {
				switch ty.Elem.Base {
				case String:
					s.Kind, s.Get = "upper", "UPPER(?)"
					if ty.Elem.Null && r.P(0.5) {
						s.Kind, s.Get = "ifnull", "IFNULL(?, 'none \"x\"')"
						ty.Elem.Null = false
					}
				case Int8, Int16:
					s.Kind, s.Get = "plus1", "? + 1"
					ty.Elem.Base = Int32
				}
				if s.Get != "" {
					t.kv("get", s.Get)
				}
			}
			if !same && r.P(0.6) {
				t.kv("name", c.Raw)
				s.F = member(ty, t)
			} else {
				// the member has the column's member name
				if used[norm(c.F.Name)] {
					continue
				}
				used[norm(c.F.Name)] = true
				if c.Raw != Snake(c.F.Name) {
					t.kv("name", c.Raw)
				}
				id++
				s.F = &Field{Type: ty, Name: c.F.Name, Id: strconv.Itoa(id), Tags: []Tag{g.finishTag(&t)}}
				d.Fields = append(d.Fields, s.F)
			}
			q.Sel = append(q.Sel, s)
		}
	}
	conds := func(n int) {
		for ; n > 0; n-- {
			g.cond(q, cols, member)
		}
	}
	windows := func() {
		str := func(null bool) Type { return Type{Elem: Ref{Kind: KBase, Base: String, Null: null}} }
		for k := r.Range(0, 2); k > 0; k-- {
			c := Pick(r, cols)
			o := &OrderBy{Col: c}
			text := c.Raw + " $"
			if r.P(0.2) {
				o.Then = Pick(r, cols)
				text += ", " + o.Then.Raw + " DESC"
			}
			var t dbTag
			t.kv("order", text)
			o.F = member(str(r.P(0.6)), t)
			q.Order = append(q.Order, o)
		}
		if r.P(0.5) {
			ty := func() Type {
				return Type{Elem: Ref{Kind: KBase, Base: Pick(r, []string{Int32, Int64, Uint32}), Null: r.P(0.6)}}
			}
			var t dbTag
			t.kv("limit", "?")
			lim := ty()
			if r.P(0.6) {
				var t dbTag
				t.kv("offset", "?")
				q.Offset = member(ty(), t)
			}
			q.Limit = member(lim, t)
		}
	}
	table := true
	key := func(op, who string) {
		q.Ops[op] = who
		t.kv(op, g.says(who))
	}
	some := func(ops ...string) {
		n := 0
		for n == 0 {
			for _, op := range ops {
				if r.P(0.6) && q.Ops[op] == "" {
					n++
					switch op {
					case "count", "del", "rm":
						key(op, "true")
					case "map":
						g.mapKey(q, &t, "parent", e.Sel)
					default:
						key(op, "parent")
					}
				}
			}
		}
	}
	switch q.Role {
	case "view":
		table = false
		plain(r.Range(1, 5), true, true, false)
		conds(r.Range(0, 4))
		windows()
		key("list", "self")
		if r.P(0.5) {
			key("count", "true")
		}
		if r.P(0.5) {
			key("get", "self")
		}
		if r.P(0.5) {
			g.mapKey(q, &t, "self", q.Sel)
		}
		for i := range d.Fields {
			// the key is the first member unless marked
			if len(q.Sel) > 0 && d.Fields[i] == q.Sel[0].F && r.P(0.5) {
				tag := &d.Fields[i].Tags[0]
				tag.KVs = append(tag.KVs, KV{Key: "key", Values: []string{"true"}})
			}
		}
	case "agg":
		table = false
		ng := r.Range(0, 2)
		have := map[*Col]bool{}
		for i := 0; i < ng; i++ {
			c := Pick(r, cols)
			if have[c] {
				continue
			}
			have[c] = true
			var t dbTag
			t.kv("name", c.Raw)
			t.kv("get", "?")
			t.kv("group", c.Raw)
			fl := member(c.Type, t)
			q.Group = append(q.Group, &OrderBy{F: fl, Col: c})
			q.Sel = append(q.Sel, &Sel{F: fl, Col: c, Get: "?"})
		}
		for i := r.Range(1, 3); i > 0; i-- {
			c := Pick(r, cols)
			var t dbTag
			s := &Sel{Col: c}
			ty := Type{Elem: Ref{Kind: KBase, Base: Int64}}
			switch {
			case r.P(0.4) || c.Type.Elem.Kind != KBase || c.Type.Elem.Base == Bool:
				s.Kind, s.Get = "count", "COUNT(1)"
			case r.P(0.3) && (c.Type.Elem.Base == Int16 || c.Type.Elem.Base == Int8):
				s.Kind, s.Get = "sum", "SUM(?)"
				ty.Elem.Null = true
			default:
				s.Kind, s.Get = Pick(r, []string{"max", "min"}), ""
				s.Get = strings.ToUpper(s.Kind) + "(?)"
				ty = c.Type
				ty.Elem.Null = true
			}
			t.kv("name", c.Raw)
			t.kv("get", s.Get)
			s.F = member(ty, t)
			q.Sel = append(q.Sel, s)
		}
		conds(r.Range(0, 2))
		key("list", "self")
	case "query":
		conds(r.Range(0, 4))
		windows()
		some("list", "map", "count", "get")
	case "getself":
		plain(r.Range(1, 5), false, true, false)
		conds(r.Range(0, 3))
		key("get", "self")
		if r.P(0.5) {
			key("count", "true")
		}
	case "listself":
		plain(r.Range(1, 5), false, false, true)
		if len(q.Sel) == 0 {
			return nil
		}
		conds(r.Range(0, 3))
		windows()
		key("list", "self")
		if r.P(0.5) {
			g.mapKey(q, &t, "self", q.Sel)
		}
	case "delete":
		conds(r.Range(1, 3))
		some("del", "rm", "count")
	case "change":
		g.sets(q, cols, member)
		conds(r.Range(1, 3))
		for len(q.Ops) == 0 {
			for _, op := range []string{"update", "set"} {
				if r.P(0.6) {
					key(op, "self")
				}
			}
		}
	case "insert":
		// every column that cannot be null, and some others
		for _, c := range e.Cols {
			if c.Type.IsNull() && r.P(0.5) {
				continue
			}
			if !g.usable(f, c.Type) {
				return nil
			}
			var t dbTag
			t.kv("name", c.Raw)
			t.kv("set", "?")
			if c.JSON {
				t.kv("converter", "json")
			}
			q.Sets = append(q.Sets, &SetX{F: member(c.Type, t), Col: c, Kind: "set"})
		}
		key("insert", "self")
	case "inserts":
		if r.P(0.5) {
			for _, c := range e.Cols {
				if c.Type.IsNull() && r.P(0.5) {
					continue
				}
				if !g.usable(f, c.Type) {
					return nil
				}
				var t dbTag
				t.kv("name", c.Raw)
				if c.JSON {
					t.kv("converter", "json")
				}
				q.Sel = append(q.Sel, &Sel{F: member(c.Type, t), Col: c})
			}
			key("inserts", "self")
		} else {
			key("inserts", "parent")
		}
	case "child":
		for _, fl := range e.D.AllFields() {
			used[norm(fl.Name)] = true
		}
		used[norm(e.D.Name)] = true
		for _, a := range e.D.Ancestors() {
			used[norm(a.Name)] = true
		}
		for _, c := range e.Cols {
			if c.SetQ {
				q.Sets = append(q.Sets, &SetX{F: c.F, Col: c, Kind: "set"})
			}
		}
		if len(q.Sets) == 0 {
			return nil
		}
		d.Extends = append(d.Extends, Ext{Data: e.D, Id: "1"})
		conds(r.Range(1, 3))
		for len(q.Ops) == 0 {
			for _, op := range []string{"update", "set"} {
				if r.P(0.6) {
					key(op, "parent")
				}
			}
		}
	}
	if len(d.Fields) > 1 && q.Role != "view" && r.P(0.3) {
		r.Shuffle(len(d.Fields), func(i, j int) { d.Fields[i], d.Fields[j] = d.Fields[j], d.Fields[i] })
		q.sortBy(d)
	}
	if table {
		t.kv("table", e.D.Name)
	} else {
		name := e.Table
		if i := strings.Index(name, "."); i >= 0 {
			t.kv("schema", name[:i])
			name = name[i+1:]
		}
		t.kv("name", name)
		if !e.Fake {
			t.kv("fake", "false")
		}
	}
	// part of the request may be inherited
	if len(d.Extends) == 0 && len(d.Fields) > 1 && q.Role != "view" && r.P(0.25) {
		base := &Data{File: f, Name: g.TypeName(typeWords, []string{"Page", "Filter"})}
		if !used[norm(base.Name)] {
			n := r.Range(1, len(d.Fields)-1)
			base.Fields, d.Fields = d.Fields[:n:n], d.Fields[n:]
			d.Extends = append(d.Extends, Ext{Data: base, Id: "1"})
			f.Decls = append(f.Decls, base)
		}
	}
	d.Tags = append(d.Tags, g.finishTag(&t))
	if e.Cached {
		g.cacheTag(q)
	}
	f.Decls = append(f.Decls, d)
	return q
}

// sortBy brings lists with an order into the order of the members.
func (q *DB) sortBy(d *Data) {
	at := map[*Field]int{}
	for i, f := range d.AllFields() {
		at[f] = i
	}
	sort.SliceStable(q.Order, func(i, j int) bool { return at[q.Order[i].F] < at[q.Order[j].F] })
	sort.SliceStable(q.Group, func(i, j int) bool { return at[q.Group[i].F] < at[q.Group[j].F] })
	sort.SliceStable(q.Sets, func(i, j int) bool { return at[q.Sets[i].F] < at[q.Sets[j].F] })
}

func (g *Gen) sets(q *DB, cols []*Col, member func(Type, dbTag) *Field) {
	r := g.R
	have := map[*Col]bool{q.Entity.Key: true}
	for i := r.Range(1, 4); i > 0; i-- {
		c := Pick(r, q.Entity.Cols)
		if have[c] || !g.usable(q.D.File, c.Type) {
			continue
		}
		have[c] = true
		var t dbTag
		x := &SetX{Col: c, Kind: "set"}
		ty := c.Type
		if c.JSON {
			t.kv("converter", "json")
		} else if r.P(0.5) {
			ty.Elem.Null = true
		}
		text := "?"
		switch {
		case !c.JSON && ty.Elem.Kind == KBase && ty.Elem.Base == Int16 && r.P(0.5):
			x.Kind, text = "add", c.Raw+" + ?"
			ty.Elem.Base = Int8
			ty.Elem.Null = c.Type.Elem.Null
		case !c.JSON && r.P(0.2):
			x.Kind, text = "coalesce", "IFNULL(?, "+c.Raw+")"
		case !c.JSON && c.Type.Elem.Null && r.P(0.15):
			x.Kind, text = "null", "NULL"
			ty = Type{Elem: Ref{Kind: KBase, Base: Bool, Null: true}}
		case !c.JSON && !c.Type.Elem.Null:
			ty.Elem.Null = false
		}
		if x.Kind == "set" && ty.IsNull() && r.P(0.2) {
			// null is written too
			if c.Type.IsNull() {
				t.kv("force", "true")
			}
		}
		t.kv("name", c.Raw)
		t.kv("set", text)
		x.F = member(ty, t)
		q.Sets = append(q.Sets, x)
	}
	if len(q.Sets) == 0 {
		var t dbTag
		c := q.Entity.Key
		t.kv("name", c.Raw)
		t.kv("set", "IFNULL(?, "+c.Raw+")")
		ty := c.Type
		ty.Elem.Null = true
		q.Sets = append(q.Sets, &SetX{F: member(ty, t), Col: c, Kind: "coalesce"})
	}
}

// Forced says whether an update writes the member's null.
func (x *SetX) Forced() bool {
	t := tagOf(x.F.Tags, "db")
	for _, kv := range t.KVs {
		if kv.Key == "force" {
			return strings.ToLower(kv.Values[0]) == "true"
		}
	}
	return false
}

func (g *Gen) cond(q *DB, cols []*Col, member func(Type, dbTag) *Field) {
	r := g.R
	c := Pick(r, cols)
	col := c.Raw
	if col == c.Id && r.P(0.2) {
		col = Pick(r, []string{"`" + c.Raw + "`", `"` + c.Raw + `"`})
	}
	ty := c.Type
	ty.Elem.Null = r.P(0.65)
	k := &Cond{Col: c}
	ops := []string{"=", "<>", "<", "<=", ">", ">="}
	kinds := []string{"cmp", "cmp", "in", "notin", "range", "both", "pair", "isnull", "twice", "between", "json"}
	if ty.Elem.Kind == KBase && ty.Elem.Base == String {
		kinds = append(kinds, "like", "like")
		if !strings.Contains(c.Raw, "`") {
			kinds = append(kinds, "likeesc", "quoted")
		}
	}
	k.Kind = Pick(r, kinds)
	if (k.Kind == "in" || k.Kind == "notin") && ty.Elem.Kind == KBase && ty.Elem.Base == Uint8 {
		// a list of uint8 is a byte string for the database
		k.Kind = "cmp"
	}
	k.Op = Pick(r, ops)
	join := Pick(r, []string{"AND ", "AND ", " AND ", "and "})
	// a plain comparison that another condition can refer to
	var other, doc *Cond
	for _, x := range q.Conds {
		if x.Kind == "json" && !x.F.Type.IsNull() && r.P(0.6) {
			doc = x
		}
		if x.Kind == "cmp" && r.P(0.6) {
			other = x
		}
	}
	var t dbTag
	switch k.Kind {
	case "pair", "between":
		if other == nil || k.Kind == "between" && !sameBase(other.Col.Type, c.Type) {
			k.Kind = "cmp"
		}
	case "json":
		k.Kind = "cmp"
		for i := 0; i < 5 && k.Kind == "cmp"; i++ {
			if x := g.typ(q.D.File); (x.Cont != None || x.Elem.Kind == KData) && !x.HasBytes() {
				ty, k.Kind = x, "json"
				t.kv("converter", "json")
			}
		}
	}
	switch k.Kind {
	case "json": // holds for every value
		k.Text = []string{join + "? <> ''"}
	case "cmp":
		k.Text = []string{join + col + " " + k.Op + " ?"}
		if doc != nil {
			k.Other = doc.F
			k.Text[0] = join + "(" + col + " " + k.Op + " ? AND ?{" + doc.F.Name + "} <> '')"
		}
	case "like":
		k.Text = []string{join + col + " LIKE ?"}
	case "likeesc":
		col = c.Raw
		k.Text = []string{join + col + ` LIKE ? ESCAPE '\'`}
	case "in":
		k.Text = []string{join + col + " IN (?)"}
	case "notin":
		k.Text = []string{join + col + " NOT IN (?)"}
	case "range":
		k.Text = []string{join + col + " >= ?", "AND " + col + " < ?"}
	case "both":
		k.Text = []string{join + col + " >= ?", "AND " + col + " <> ?"}
	case "pair":
		k.Other, k.Col2, k.Op2 = other.F, other.Col, other.Op
		if strings.Contains(other.Col.Raw, "`") {
			col = c.Raw
		}
		k.Text = []string{join + "(" + col + " " + k.Op + " ? OR " + other.Col.Raw + " " + other.Op + " ?{" + other.F.Name + "})"}
	case "between":
		k.Other = other.F
		k.Text = []string{join + col + " BETWEEN ? AND ?{" + other.F.Name + "}"}
	case "isnull":
		k.Text = []string{join + col + " IS NULL"}
		ty = Type{Elem: Ref{Kind: KBase, Base: Pick(r, []string{Bool, Int32}), Null: true}}
	case "twice":
		k.Text = []string{join + "(" + col + " < ? OR " + col + " = ?)"}
	case "quoted":
		col = c.Raw
		k.Lit = `it's "q" \ %`
		k.Text = []string{join + "(" + col + " = ? OR " + col + ` = 'it''s "q" \ %')`}
	}
	switch k.Kind {
	case "in", "notin", "range":
		if r.P(0.3) && k.Kind == "range" {
			ty.Elem.Null = true
		} else {
			ty.Elem.Null = false
		}
		ty.Cont, ty.ContNull = Array, r.P(0.7)
	}
	t.kv("where", k.Text...)
	if r.P(0.3) {
		t.kv("name", c.Raw)
	}
	k.F = member(ty, t)
	q.Conds = append(q.Conds, k)
}

func sameBase(a, b Type) bool {
	return a.Elem.Kind == b.Elem.Kind && a.Elem.Base == b.Elem.Base && a.Elem.Enum == b.Elem.Enum
}

// ---- meaning ----

// Tri is a truth value of SQL.
type Tri int

const (
	False Tri = iota
	True
	Unknown
)

func tri(b bool) Tri {
	if b {
		return True
	}
	return False
}

// CmpVal orders two non-null values of a type.
func CmpVal(t Type, a, b any) int {
	if t.Elem.Kind == KBase {
		switch t.Elem.Base {
		case String:
			return strings.Compare(a.(string), b.(string))
		case Bool:
			n := func(v any) int {
				if v == true {
					return 1
				}
				return 0
			}
			return n(a) - n(b)
		case Float, Double:
			bits := 64
			if t.Elem.Base == Float {
				bits = 32
			}
			x, _ := strconv.ParseFloat(fmt.Sprint(a), bits)
			y, _ := strconv.ParseFloat(fmt.Sprint(b), bits)
			switch {
			case x < y:
				return -1
			case x > y:
				return 1
			}
			return 0
		}
	}
	x, _ := new(big.Rat).SetString(fmt.Sprint(a))
	y, _ := new(big.Rat).SetString(fmt.Sprint(b))
	return x.Cmp(y)
}

func rel3(t Type, a any, op string, b any) Tri {
	if a == nil || b == nil {
		return Unknown
	}
	c := CmpVal(t, a, b)
	switch op {
	case "=":
		return tri(c == 0)
	case "<>":
		return tri(c != 0)
	case "<":
		return tri(c < 0)
	case "<=":
		return tri(c <= 0)
	case ">":
		return tri(c > 0)
	case ">=":
		return tri(c >= 0)
	}
	panic(op)
}

func or3(a, b Tri) Tri {
	if a == True || b == True {
		return True
	}
	if a == Unknown || b == Unknown {
		return Unknown
	}
	return False
}

func and3(a, b Tri) Tri {
	if a == False || b == False {
		return False
	}
	if a == Unknown || b == Unknown {
		return Unknown
	}
	return True
}

// Like is the LIKE of SQL, with or without an escape character.
func Like(s, p []rune, esc bool) bool {
	if len(p) == 0 {
		return len(s) == 0
	}
	switch {
	case esc && p[0] == '\\':
		if len(p) == 1 {
			return false
		}
		return len(s) > 0 && s[0] == p[1] && Like(s[1:], p[2:], esc)
	case p[0] == '%':
		for i := 0; i <= len(s); i++ {
			if Like(s[i:], p[1:], esc) {
				return true
			}
		}
		return false
	case p[0] == '_':
		return len(s) > 0 && Like(s[1:], p[1:], esc)
	}
	return len(s) > 0 && s[0] == p[0] && Like(s[1:], p[1:], esc)
}

// Row is a row of a table, by column id.
type Row map[string]any

// Part is one text that the conditions of a value add to a statement.
type Part struct {
	Text string // with a ? for every argument
	Eval func(Row) Tri
}

// Parts lists what the condition adds for the value v of its data.
func (k *Cond) Parts(v Obj) (out []Part) {
	x := v[k.F.Name]
	if x == nil {
		return nil
	}
	t := k.Col.Type
	id := k.Col.Id
	add := func(text string, f func(Row) Tri) {
		if k.Other != nil {
			text = strings.ReplaceAll(text, "?{"+k.Other.Name+"}", "?")
		}
		out = append(out, Part{text, f})
	}
	switch k.Kind {
	case "json":
		if l, ok := x.(List); ok && len(l) == 0 && k.F.Type.IsNull() {
			return nil // as if it were null
		}
		add(k.Text[0], func(r Row) Tri { return True })
	case "cmp":
		add(k.Text[0], func(r Row) Tri { return rel3(t, r[id], k.Op, x) })
	case "like", "likeesc":
		add(k.Text[0], func(r Row) Tri {
			if r[id] == nil {
				return Unknown
			}
			return tri(Like([]rune(r[id].(string)), []rune(x.(string)), k.Kind == "likeesc"))
		})
	case "in", "notin":
		l := x.(List)
		if len(l) == 0 {
			return nil
		}
		add(strings.Replace(k.Text[0], "?", strings.Repeat("?,", len(l)-1)+"?", 1), func(r Row) Tri {
			o := False
			for _, e := range l {
				o = or3(o, rel3(t, r[id], "=", e))
			}
			if k.Kind == "notin" {
				switch o {
				case True:
					return False
				case False:
					return True
				}
			}
			return o
		})
	case "range":
		l := x.(List)
		for i, op := range []string{">=", "<"} {
			if i < len(l) && l[i] != nil {
				add(k.Text[i], func(r Row) Tri { return rel3(t, r[id], op, l[i]) })
			}
		}
	case "both":
		add(k.Text[0], func(r Row) Tri { return rel3(t, r[id], ">=", x) })
		add(k.Text[1], func(r Row) Tri { return rel3(t, r[id], "<>", x) })
	case "pair":
		y := v[k.Other.Name]
		add(k.Text[0], func(r Row) Tri {
			return or3(rel3(t, r[id], k.Op, x), rel3(k.Col2.Type, r[k.Col2.Id], k.Op2, y))
		})
	case "between":
		y := v[k.Other.Name]
		add(k.Text[0], func(r Row) Tri { return and3(rel3(t, r[id], ">=", x), rel3(t, r[id], "<=", y)) })
	case "isnull":
		add(k.Text[0], func(r Row) Tri { return tri(r[id] == nil) })
	case "twice":
		add(k.Text[0], func(r Row) Tri { return or3(rel3(t, r[id], "<", x), rel3(t, r[id], "=", x)) })
	case "quoted":
		add(k.Text[0], func(r Row) Tri { return or3(rel3(t, r[id], "=", x), rel3(t, r[id], "=", k.Lit)) })
	}
	return
}

// Matches says whether a row satisfies all conditions of v.
func Matches(ps []Part, r Row) bool {
	for _, p := range ps {
		if p.Eval(r) != True {
			return false
		}
	}
	return true
}

// Parts lists what all conditions of the data add.
func (q *DB) Parts(v Obj) (out []Part) {
	for _, k := range q.Conds {
		out = append(out, k.Parts(v)...)
	}
	return
}

// KeyField is the member that addresses a row of the table itself.
func (q *DB) KeyField() *Field {
	for _, s := range q.Sel {
		if s.Col == q.Entity.Key {
			return s.F
		}
	}
	return nil
}

// KeyPart addresses the row with the key of v.
func (q *DB) KeyPart(v Obj) []Part {
	k := q.Entity.Key
	x := v[q.KeyField().Name]
	return []Part{{"AND " + k.Raw + " = ?", func(r Row) Tri { return rel3(k.Type, r[k.Id], "=", x) }}}
}

// DBReq is a random value of a data with a db tag.
func (r *Rng) DBReq(q *DB, keys []any) Obj {
	v := Obj{}
	conds := map[*Field]*Cond{}
	for _, k := range q.Conds {
		conds[k.F] = k
	}
	cols := map[*Field]*Col{}
	for _, c := range q.Cols {
		cols[c.F] = c
	}
	for _, s := range q.Sel {
		cols[s.F] = s.Col
	}
	for _, s := range q.Sets {
		cols[s.F] = s.Col
	}
	if q.Role == "child" {
		for _, c := range q.Entity.Cols {
			cols[c.F] = c
		}
	}
	order := map[*Field]bool{}
	for _, o := range q.Order {
		order[o.F] = true
	}
	group := map[*Field]bool{}
	for _, o := range q.Group {
		group[o.F] = true
	}
	quiet := r.P(0.4)
	for _, f := range q.D.AllFields() {
		switch k := conds[f]; {
		case order[f]:
			v[f.Name] = Pick(r, []any{"ASC", "DESC", "DESC", "", "asc", "id; DROP TABLE t", nil})
			if v[f.Name] == nil && !f.Type.Elem.Null {
				v[f.Name] = "ASC"
			}
		case f == q.Limit:
			v[f.Name] = Pick(r, []any{"0", "1", "2", "3", "10", "10"})
			if f.Type.Elem.Null && r.P(0.3) {
				v[f.Name] = nil
			}
		case f == q.Offset:
			v[f.Name] = Pick(r, []any{"0", "0", "1", "2", "5"})
			if f.Type.Elem.Null && r.P(0.3) {
				v[f.Name] = nil
			}
		case k != nil && quiet && f.Type.IsNull() && r.P(0.8):
			v[f.Name] = nil
		case k != nil && (k.Kind == "like" || k.Kind == "likeesc") && (!f.Type.Elem.Null || r.P(0.7)):
			ps := []string{"a%", "%b%", "_b", "%", "", "%'%", "ab", `%"%`, "%ü%"}
			if k.Kind == "likeesc" {
				ps = append(ps, `a\%`, `\_b`, `%\\%`)
			}
			v[f.Name] = Pick(r, ps)
		case k != nil && f.Type.Cont == Array:
			v[f.Name] = r.DBVal(f.Type)
			if k.Kind == "range" {
				if l, ok := v[f.Name].(List); ok && len(l) > 2 {
					v[f.Name] = l[:2]
				} else if ok && r.P(0.2) {
					v[f.Name] = List{}
				}
			} else if l, ok := v[f.Name].(List); ok && f.Type.ContNull && r.P(0.1) {
				v[f.Name] = l[:0]
			}
		case group[f]:
			t := f.Type
			t.Elem.Null = false
			v[f.Name] = r.DBVal(t)
		case cols[f] == q.Entity.Key && len(keys) > 0 && sameBase(f.Type, q.Entity.Key.Type) && !f.Type.Elem.Null && r.P(0.7):
			v[f.Name] = Pick(r, keys)
		case k != nil && k.Col == q.Entity.Key && sameBase(f.Type, q.Entity.Key.Type) && f.Type.Cont == None && len(keys) > 0 && k.Kind != "isnull" && r.P(0.5):
			v[f.Name] = Pick(r, keys)
		default:
			v[f.Name] = r.DBVal(f.Type)
		}
	}
	return v
}

// Twin is another value that differs only in what its members hold: the same
// members are null, lists have the same lengths and null places, directions stay.
func (r *Rng) Twin(q *DB, v Obj) Obj {
	keep := map[string]bool{}
	for _, o := range q.Order {
		keep[o.F.Name] = true
	}
	out := Obj{}
	for _, f := range q.D.AllFields() {
		x := v[f.Name]
		out[f.Name] = x
		if x == nil || keep[f.Name] {
			continue
		}
		t := f.Type
		l, ok := x.(List)
		switch {
		case t.Cont == None:
			t.Elem.Null = false
			out[f.Name] = r.DBVal(t)
		case ok && t.Cont == Array:
			n := List{}
			e := Type{Elem: t.Elem}
			e.Elem.Null = false
			for i := range l {
				if l[i] == nil {
					n = append(n, nil)
				} else {
					n = append(n, r.DBVal(e))
				}
			}
			out[f.Name] = n
		}
	}
	return out
}

// HasBytes says whether a list of uint8, which Go writes in a form of its own, is in a value of the type.
func (t Type) HasBytes() bool { return t.hasBytes(map[*Data]bool{}) }

func (t Type) hasBytes(seen map[*Data]bool) bool {
	if t.Cont == Array && t.Elem.Kind == KBase && t.Elem.Base == Uint8 && !t.Elem.Null {
		return true
	}
	if t.Elem.Kind != KData || seen[t.Elem.Data] {
		return false
	}
	seen[t.Elem.Data] = true
	for _, f := range t.Elem.Data.AllFields() {
		if f.Type.hasBytes(seen) {
			return true
		}
	}
	return false
}
