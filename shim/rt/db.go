package rt

import (
	"bufio"
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os/exec"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/wskfjtheqian/hbuf_golang/pkg/cache"
	"github.com/wskfjtheqian/hbuf_golang/pkg/db"
)

// ---- the engine ----

type engine struct {
	in  io.WriteCloser
	out *bufio.Reader
}

var eng *engine

type answer struct {
	Err  string
	N    int64
	Id   int64
	Cols []string
	Rows [][]map[string]string
}

func start() {
	cmd := exec.Command("python3", "-I", "-u", "rt/engine.py")
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	eng = &engine{in, bufio.NewReaderSize(out, 1<<20)}
}

func (e *engine) ask(o map[string]any) *answer {
	b, _ := json.Marshal(o)
	if _, err := e.in.Write(append(b, '\n')); err != nil {
		panic(fmt.Sprint("engine: ", err))
	}
	l, err := e.out.ReadBytes('\n')
	if err != nil {
		panic(fmt.Sprint("engine: ", err))
	}
	a := &answer{}
	if err := json.Unmarshal(l, a); err != nil {
		panic(fmt.Sprint("engine: ", err, string(l)))
	}
	return a
}

func cell(v driver.Value) map[string]string {
	switch x := v.(type) {
	case nil:
		return nil
	case int64:
		return map[string]string{"i": strconv.FormatInt(x, 10)}
	case float64:
		return map[string]string{"f": strconv.FormatFloat(x, 'g', -1, 64)}
	case bool:
		if x {
			return map[string]string{"i": "1"}
		}
		return map[string]string{"i": "0"}
	case string:
		return map[string]string{"s": x}
	case []byte:
		return map[string]string{"b": hex.EncodeToString(x)}
	case time.Time:
		return map[string]string{"d": strconv.FormatInt(x.UnixMilli(), 10)}
	}
	panic(fmt.Sprintf("engine: value %T", v))
}

func uncell(c map[string]string) driver.Value {
	for k, s := range c {
		switch k {
		case "i":
			n, err := strconv.ParseInt(s, 10, 64)
			if err != nil {
				return []byte(s)
			}
			return n
		case "f":
			f, _ := strconv.ParseFloat(s, 64)
			return f
		case "s":
			return []byte(s)
		case "b":
			b, _ := hex.DecodeString(s)
			return b
		case "d":
			n, _ := strconv.ParseInt(s, 10, 64)
			return time.UnixMilli(n)
		}
	}
	return nil
}

// ---- database/sql over it ----

type drv struct{}
type conn struct{}
type rows struct {
	a *answer
	i int
}

var failStmt error // what the next statement fails with

func (drv) Open(string) (driver.Conn, error)     { return conn{}, nil }
func (conn) Prepare(string) (driver.Stmt, error) { return nil, errors.New("no prepare") }
func (conn) Close() error                        { return nil }
func (conn) Begin() (driver.Tx, error)           { return nil, errors.New("no transactions") }
func (conn) CheckNamedValue(n *driver.NamedValue) (err error) {
	// a uint64 travels as text, in a column that compares as numbers
	rv := reflect.ValueOf(n.Value)
	for rv.Kind() == reflect.Pointer && !rv.IsNil() {
		rv = rv.Elem()
	}
	if rv.Kind() == reflect.Uint64 {
		n.Value = strconv.FormatUint(rv.Uint(), 10)
		return nil
	}
	n.Value, err = driver.DefaultParameterConverter.ConvertValue(n.Value)
	return
}

func send(q string, args []driver.NamedValue) (*answer, error) {
	if failStmt != nil {
		return nil, failStmt
	}
	a := make([]map[string]string, len(args))
	for i := range args {
		a[i] = cell(args[i].Value)
	}
	r := eng.ask(map[string]any{"op": "sql", "q": q, "a": a})
	if r.Err != "" {
		return nil, errors.New("engine: " + r.Err)
	}
	return r, nil
}

func (conn) QueryContext(_ context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	a, err := send(q, args)
	if err != nil {
		return nil, err
	}
	return &rows{a: a}, nil
}

type result struct{ n, id int64 }

func (r result) LastInsertId() (int64, error) { return r.id, nil }
func (r result) RowsAffected() (int64, error) { return r.n, nil }

func (conn) ExecContext(_ context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	a, err := send(q, args)
	if err != nil {
		return nil, err
	}
	return result{a.N, a.Id}, nil
}

func (r *rows) Columns() []string { return r.a.Cols }
func (r *rows) Close() error      { return nil }
func (r *rows) Next(dest []driver.Value) error {
	if r.i >= len(r.a.Rows) {
		return io.EOF
	}
	for i, c := range r.a.Rows[r.i] {
		dest[i] = uncell(c)
	}
	r.i++
	return nil
}

var theDB *sql.DB

// exe is what generated code sees.
type exe struct {
	tables []string
	stmts  []any
}

func (e *exe) Table(name string) string {
	e.tables = append(e.tables, name)
	return strings.ReplaceAll(name, ".", "__")
}

func (e *exe) note(kind, q string, args []any, err error) {
	s := map[string]any{"kind": kind, "text": q, "args": len(args)}
	if err != nil {
		s["err"] = err.Error()
	}
	e.stmts = append(e.stmts, s)
}

func (e *exe) Query(q string, args ...any) (*sql.Rows, error) {
	r, err := theDB.Query(q, args...)
	e.note("query", q, args, err)
	return r, err
}

func (e *exe) Exec(q string, args ...any) (sql.Result, error) {
	r, err := theDB.Exec(q, args...)
	e.note("exec", q, args, err)
	return r, err
}

func raw(q string, args ...map[string]string) *answer {
	a := eng.ask(map[string]any{"op": "sql", "q": q, "a": args})
	if a.Err != "" {
		panic("harness statement: " + q + ": " + a.Err)
	}
	return a
}

func openDB() {
	if eng == nil {
		start()
		sql.Register("pipe", drv{})
		theDB, _ = sql.Open("pipe", "")
		theDB.SetMaxOpenConns(1)
	}
}

func init() {
	// db: steps on a fresh database
	ops["db"] = func(o *Op) any {
		openDB()
		eng.ask(map[string]any{"op": "reset"})
		ctx := context.Background()
		var store *cache.Store
		if o.Opt["cache"] != "" {
			store = cache.NewStore()
			ctx = cache.With(ctx, store)
		}
		steps := []any{}
		for _, q := range o.Seq {
			out := map[string]any{}
			switch q.Op {
			case "create":
				raw("CREATE TABLE " + strings.ReplaceAll(q.Text, ".", "__") + " (" + strings.Join(q.Texts, ", ") + ")")
			case "seed":
				for _, r := range q.X.([]any) {
					var cells []map[string]string
					for _, c := range r.([]any) {
						if c == nil {
							cells = append(cells, nil)
							continue
						}
						m := map[string]string{}
						for k, v := range c.(map[string]any) {
							m[k] = v.(string)
						}
						cells = append(cells, m)
					}
					raw("INSERT INTO "+strings.ReplaceAll(q.Text, ".", "__")+" ("+strings.Join(q.Texts, ", ")+") VALUES ("+strings.TrimSuffix(strings.Repeat("?,", len(cells)), ",")+")", cells...)
				}
			case "dump":
				out["rows"] = raw("SELECT " + strings.Join(q.Texts, ", ") + " FROM " + strings.ReplaceAll(q.Text, ".", "__")).Rows
			case "call":
				e := &exe{}
				failStmt = nil
				if q.Opt["fail"] != "" {
					failStmt = errors.New(q.Opt["fail"])
				}
				if store != nil {
					store.Log = nil
					store.Seen = func() int { return len(e.stmts) }
					store.Fail = q.Opt["cachefail"]
				}
				p := newData(q.T)
				Set(p.Elem(), q.V)
				m := method(p, q.M)
				args := []reflect.Value{reflect.ValueOf(db.With(ctx, e))}
				if m.Type().NumIn() == 2 {
					x := reflect.New(m.Type().In(1)).Elem()
					Set(x, q.X)
					args = append(args, x)
				}
				r := m.Call(args)
				var vals []any
				for _, v := range r[:len(r)-1] {
					vals = append(vals, Get(v))
				}
				out["ret"] = vals
				out["err"] = errText(r[len(r)-1])
				out["after"] = Get(p)
				out["stmts"] = e.stmts
				out["tables"] = e.tables
				if store != nil {
					evs := []any{}
					for _, ev := range store.Log {
						evs = append(evs, map[string]any{"op": ev.Op, "table": ev.Table, "ok": ev.OK, "dur": strconv.FormatInt(int64(ev.Dur/time.Second), 10), "at": ev.At})
					}
					out["cache"] = evs
					out["locked"] = len(store.Locked)
					out["entries"] = len(store.Entries)
				}
			case "scan":
				r := method(newData(q.T), "DbScan").Call(nil)
				out["cols"] = r[0].String()
				out["n"] = r[1].Len()
				out["name"] = method(newData(q.T), "DbName").Call(nil)[0].String()
			default:
				fail("no step %s", q.Op)
			}
			steps = append(steps, out)
		}
		return map[string]any{"steps": steps}
	}
}
