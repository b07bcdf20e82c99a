package rt

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/wskfjtheqian/hbuf_golang/pkg/db"
	"github.com/wskfjtheqian/hbuf_golang/pkg/hbuf"
	"github.com/wskfjtheqian/hbuf_golang/pkg/rpc"
)

// plain is what run gives, without the stack of a panic.
func plain(o *Op) string {
	x := run(o)
	if m, ok := x.(map[string]any); ok {
		delete(m, "stack")
	}
	b, err := json.Marshal(x)
	if err != nil {
		return "unwritable: " + err.Error()
	}
	return string(b)
}

// crowd runs jobs 0..n-1 reps times each in each of g goroutines, in random orders,
// and gives the distinct results of every job. The goroutines share nothing.
func crowd(seed int64, g, reps, n int, f func(rng *rand.Rand, job int) string) [][]string {
	got := make([][]map[string]bool, g)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < g; i++ {
		got[i] = make([]map[string]bool, n)
		for j := range got[i] {
			got[i][j] = map[string]bool{}
		}
		wg.Add(1)
		go func(i int, mine []map[string]bool) {
			defer wg.Done()
			rng := rand.New(rand.NewSource(seed + int64(i)))
			<-start
			for k := 0; k < reps; k++ {
				for _, j := range rng.Perm(n) {
					mine[j][f(rng, j)] = true
				}
			}
		}(i, got[i])
	}
	close(start)
	wg.Wait()
	out := make([][]string, n)
	for j := range out {
		all := map[string]bool{}
		for i := range got {
			for s := range got[i][j] {
				all[s] = true
			}
		}
		for s := range all {
			out[j] = append(out[j], s)
		}
		sort.Strings(out[j])
	}
	return out
}

// pause lets others run for a moment.
func pause(rng *rand.Rand) {
	switch rng.Intn(8) {
	case 0:
		time.Sleep(time.Duration(rng.Intn(30)) * time.Microsecond)
	case 1, 2, 3:
		runtime.Gosched()
	}
}

func nums(o *Op) (g, reps int, seed int64) { return o.Nums[0], o.Nums[1], int64(o.Nums[2]) }

// differ compares what jobs gave together with what each gives alone.
func differ(got [][]string, alone func(j int) string) any {
	var out []any
	for j, l := range got {
		a := alone(j)
		if len(l) != 1 || l[0] != a {
			out = append(out, map[string]any{"job": j, "alone": a, "together": l})
		}
	}
	return out
}

// slot is one call under way.
type slot struct {
	rng    *rand.Rand
	result any
	err    string
	calls  []any
	routes []string
	tags   [][]string
}

type slotKey struct{}

func slotOf(ctx context.Context) *slot {
	s, _ := ctx.Value(slotKey{}).(*slot)
	return s
}

// wire is a transport that many calls use at once.
type wire struct{ routes map[string]*rpc.ServerInvoke }

func (c *wire) Invoke(ctx context.Context, param hbuf.Data, name string, in *rpc.ClientInvoke, id int64, idInvoke *rpc.ClientInvoke) (hbuf.Data, error) {
	sl := slotOf(ctx)
	if sl == nil {
		return nil, errors.New("the client drops the context")
	}
	sl.routes = append(sl.routes, name)
	buf, err := in.FormData(param)
	if err != nil {
		return nil, fmt.Errorf("encoding the argument: %w", err)
	}
	pause(sl.rng)
	s := c.routes["/"+name]
	if s == nil {
		return nil, fmt.Errorf("no route %s", name)
	}
	sctx := rpc.NewContext(ctx)
	s.SetInfo(sctx)
	sl.tags = append(sl.tags, sctx.Tags...)
	arg, err := s.ToData(buf)
	if err != nil {
		return nil, fmt.Errorf("decoding the argument: %w", err)
	}
	pause(sl.rng)
	res, err := s.Invoke(sctx, arg)
	if err != nil {
		return nil, err
	}
	pause(sl.rng)
	if s.FormData == nil {
		return nil, nil
	}
	out, err := s.FormData(res)
	if err != nil {
		return nil, fmt.Errorf("encoding the result: %w", err)
	}
	pause(sl.rng)
	if in.ToData == nil {
		return nil, errors.New("client drops a result")
	}
	back, err := in.ToData(out)
	pause(sl.rng)
	return back, err
}

// aside is a database that answers reads from the engine and lets writes succeed without an effect.
type aside struct{ e *exe }

var engMu sync.Mutex

func (a *aside) Table(name string) string { return a.e.Table(name) }

func (a *aside) Query(q string, args ...any) (*sql.Rows, error) {
	engMu.Lock()
	defer engMu.Unlock()
	return a.e.Query(q, args...)
}

type done struct{}

func (done) LastInsertId() (int64, error) { return 7, nil }
func (done) RowsAffected() (int64, error) { return 1, nil }

func (a *aside) Exec(q string, args ...any) (sql.Result, error) {
	vals := []string{}
	for _, x := range args {
		if y, err := driver.DefaultParameterConverter.ConvertValue(x); err == nil {
			x = y
		}
		v := reflect.ValueOf(x)
		for v.Kind() == reflect.Pointer && !v.IsNil() {
			v = v.Elem()
		}
		vals = append(vals, fmt.Sprint(v))
	}
	a.e.note("exec", q, args, nil)
	a.e.stmts = append(a.e.stmts, vals)
	return done{}, nil
}

// dbcall makes one call with an own Execute.
func dbcall(q *Op, p reflect.Value) any {
	e := &exe{}
	m := method(p, q.M)
	args := []reflect.Value{reflect.ValueOf(db.With(context.Background(), &aside{e: e}))}
	if m.Type().NumIn() == 2 {
		x := reflect.New(m.Type().In(1)).Elem()
		Set(x, q.X)
		args = append(args, x)
	}
	r := m.Call(args)
	var vals []any
	for _, v := range r[:len(r)-1] {
		vals = append(vals, Get(v))
	}
	return map[string]any{"ret": vals, "err": errText(r[len(r)-1]), "after": Get(p), "stmts": e.stmts, "tables": e.tables}
}

func init() {
	// parallel: the operations Seq, together in many goroutines and then alone
	ops["parallel"] = func(o *Op) any {
		g, reps, seed := nums(o)
		got := crowd(seed, g, reps, len(o.Seq), func(_ *rand.Rand, j int) string { return plain(o.Seq[j]) })
		return map[string]any{"differ": differ(got, func(j int) string { return plain(o.Seq[j]) }), "ran": g * reps * len(o.Seq)}
	}
	// readers: functions that only read, on one value V that all goroutines share
	ops["readers"] = func(o *Op) any {
		g, reps, seed := nums(o)
		p := newData(o.T)
		Set(p.Elem(), o.V)
		before, _ := json.Marshal(Get(p))
		var jobs []func() any
		var names []string
		t := p.Type()
		for i := 0; i < t.NumMethod(); i++ {
			i, n, m := i, t.Method(i).Name, t.Method(i)
			switch {
			case n == "ToData":
				jobs = append(jobs, func() any {
					b, err := p.Interface().(hbuf.Data).ToData()
					return fmt.Sprint(string(b), err)
				})
			case strings.HasPrefix(n, "Get") && m.Type.NumIn() == 1 && m.Type.NumOut() == 1:
				jobs = append(jobs, func() any { return Get(p.Method(i).Call(nil)[0]) })
			case strings.HasPrefix(n, "Verify") && m.Type.NumIn() == 2 && m.Type.NumOut() == 1:
				jobs = append(jobs, func() any {
					return errText(p.Method(i).Call([]reflect.Value{reflect.ValueOf(context.Background())})[0])
				})
			default:
				continue
			}
			names = append(names, n)
		}
		one := func(j int) (out string) {
			defer func() {
				if x := recover(); x != nil {
					out = fmt.Sprint("panic: ", x)
				}
			}()
			b, _ := json.Marshal(jobs[j]())
			return string(b)
		}
		got := crowd(seed, g, reps, len(jobs), func(_ *rand.Rand, j int) string { return one(j) })
		after, _ := json.Marshal(Get(p))
		return map[string]any{"differ": differ(got, one), "names": names, "ran": g * reps * len(jobs), "before": string(before), "after": string(after)}
	}
	// shared: the calls Seq through the same clients and routers, many at once
	ops["shared"] = func(o *Op) any {
		g, reps, seed := nums(o)
		srv := rpc.NewServer()
		cls := map[string]reflect.Value{}
		w := &wire{}
		for _, n := range o.Texts {
			n := n
			srv.Add(Servers[n].NewRouter(&Rec{Fn: func(ctx context.Context, method string, arg, result any) error {
				sl := slotOf(ctx)
				if sl == nil {
					return errors.New("the router drops the context")
				}
				sl.calls = append(sl.calls, map[string]any{"server": n, "method": method, "arg": Get(reflect.ValueOf(arg))})
				pause(sl.rng)
				if x := Get(reflect.ValueOf(arg)); !reflect.DeepEqual(x, sl.calls[len(sl.calls)-1].(map[string]any)["arg"]) {
					return errors.New("the argument changes while the call is served")
				}
				if sl.err != "" {
					return errors.New(sl.err)
				}
				if result != nil && sl.result != nil {
					Set(reflect.ValueOf(result).Elem(), sl.result)
				}
				return nil
			}}))
			cls[n] = reflect.ValueOf(Servers[n].NewClient(w))
		}
		w.routes = srv.Router()
		got := crowd(seed, g, reps, len(o.Seq), func(rng *rand.Rand, j int) (text string) {
			q := o.Seq[j]
			defer func() {
				if x := recover(); x != nil {
					text = string(must(json.Marshal(map[string]any{"panic": fmt.Sprint(x)})))
				}
			}()
			sl := &slot{rng: rng, result: q.X, err: q.Err}
			m := method(cls[q.T], q.M)
			arg := reflect.New(m.Type().In(1).Elem())
			Set(arg.Elem(), q.V)
			r := m.Call([]reflect.Value{reflect.ValueOf(context.WithValue(context.Background(), slotKey{}, sl)), arg})
			out := map[string]any{"err": errText(r[len(r)-1]), "calls": sl.calls, "routes": sl.routes, "tags": sl.tags, "arg": Get(arg)}
			if len(r) == 2 {
				out["result"] = Get(r[0])
				pause(rng)
				if x := Get(r[0]); !reflect.DeepEqual(x, out["result"]) {
					out["panic"] = "the result changes after the call"
				}
			}
			return string(must(json.Marshal(out)))
		})
		steps := []any{}
		for _, l := range got {
			var xs []any
			for _, s := range l {
				xs = append(xs, json.RawMessage(s))
			}
			steps = append(steps, xs)
		}
		return map[string]any{"steps": steps, "ran": g * reps * len(o.Seq)}
	}
	// dbpar: the steps Seq up to the calls set a database up; the calls are then made together, and alone
	ops["dbpar"] = func(o *Op) any {
		g, reps, seed := nums(o)
		openDB()
		var calls []*Op
		set := &Op{Op: "db", Opt: map[string]string{}}
		for _, q := range o.Seq {
			if q.Op == "call" {
				calls = append(calls, q)
			} else {
				set.Seq = append(set.Seq, q)
			}
		}
		ops["db"](set)
		share := make([]reflect.Value, len(calls))
		for j, q := range calls {
			if q.Opt["share"] != "" {
				share[j] = newData(q.T)
				Set(share[j].Elem(), q.V)
			}
		}
		one := func(j int) (out string) {
			defer func() {
				if x := recover(); x != nil {
					out = fmt.Sprint("panic: ", x)
				}
			}()
			p := share[j]
			if !p.IsValid() {
				p = newData(calls[j].T)
				Set(p.Elem(), calls[j].V)
			}
			return string(must(json.Marshal(dbcall(calls[j], p))))
		}
		got := crowd(seed, g, reps, len(calls), func(_ *rand.Rand, j int) string { return one(j) })
		return map[string]any{"differ": differ(got, one), "ran": g * reps * len(calls)}
	}
}

func must(b []byte, err error) []byte {
	if err != nil {
		panic(err)
	}
	return b
}
