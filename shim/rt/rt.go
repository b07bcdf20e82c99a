package rt

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/wskfjtheqian/hbuf_golang/pkg/hbuf"
	"github.com/wskfjtheqian/hbuf_golang/pkg/manage"
	"github.com/wskfjtheqian/hbuf_golang/pkg/rpc"
)

type EnumInfo struct {
	Consts  map[string]int // by declared name
	ToName  func(v int) string
	Values  func() map[string]int
	Pointer func(v int) int
}

type ServerInfo struct {
	NewClient func(rpc.Client) any
	NewRouter func(*Rec) rpc.ServerRouter
	Default   func() any
	Get       func(context.Context) any
	NotFound  any
}

var (
	Data    = map[string]func() any{}
	Enums   = map[string]*EnumInfo{}
	Servers = map[string]*ServerInfo{}
	ops     = map[string]func(*Op) any{}
)

type Op struct {
	Op     string
	T      string
	V, X   any
	M      string
	Text   string
	Texts  []string
	Nums   []int
	Err    string
	Seq    []*Op
	Opt    map[string]string
	Wanted []string
}

// Rec is the implementation side of a server: it records and answers calls.
type Rec struct {
	Calls  []any
	Result any // neutral
	Err    error
	Fn     func(ctx context.Context, method string, arg, result any) error // instead of all that
	Watch  *watch
}

// watch follows a context on its way through generated code.
type watch struct {
	ctx    context.Context
	cancel func()
	saw    []context.Context
	bad    []string
}

func newWatch(parent context.Context) *watch {
	w := &watch{}
	w.ctx, w.cancel = context.WithCancel(context.WithValue(parent, w, w))
	return w
}

func (w *watch) see(ctx context.Context) {
	if w == nil {
		return
	}
	if ctx.Value(w) != w {
		w.bad = append(w.bad, "values of the context are gone")
	}
	if ctx.Err() != nil {
		w.bad = append(w.bad, "the context is cancelled before its parent")
	}
	w.saw = append(w.saw, ctx)
}

func (w *watch) end() []string {
	w.cancel()
	for _, ctx := range w.saw {
		if ctx.Err() == nil {
			w.bad = append(w.bad, "the context is not cancelled with its parent")
		}
	}
	return w.bad
}

func (r *Rec) Call(ctx context.Context, method string, arg any, result any) error {
	if r.Fn != nil {
		return r.Fn(ctx, method, arg, result)
	}
	r.Watch.see(ctx)
	r.Calls = append(r.Calls, map[string]any{"method": method, "arg": Get(reflect.ValueOf(arg))})
	if r.Err != nil {
		return r.Err
	}
	if result != nil && r.Result != nil {
		Set(reflect.ValueOf(result).Elem(), r.Result)
	}
	return nil
}

// capture is a transport that keeps the request and answers with a given text.
type capture struct{ path, body, reply string }

func (c *capture) Invoke(ctx context.Context, param hbuf.Data, name string, in *rpc.ClientInvoke, id int64, idInvoke *rpc.ClientInvoke) (hbuf.Data, error) {
	buf, err := in.FormData(param)
	if err != nil {
		return nil, err
	}
	c.path, c.body = name, string(buf)
	if c.reply == "" {
		return nil, errors.New("no reply")
	}
	if in.ToData == nil {
		return nil, nil
	}
	return in.ToData([]byte(c.reply))
}

type client struct {
	srv    *rpc.Server
	routes []string
	tags   [][]string
	raw    []string
	err    string
	caller *watch // of the context of the call
	called *watch // of the context on the other end
}

func (c *client) Invoke(ctx context.Context, param hbuf.Data, name string, in *rpc.ClientInvoke, id int64, idInvoke *rpc.ClientInvoke) (hbuf.Data, error) {
	c.routes = append(c.routes, name)
	c.caller.see(ctx)
	buf, err := in.FormData(param)
	if err != nil {
		return nil, fmt.Errorf("encoding the argument: %w", err)
	}
	c.raw = append(c.raw, string(buf))
	s := c.srv.Router()["/"+name]
	if s == nil {
		return nil, fmt.Errorf("no route %s", name)
	}
	base := context.Background()
	if c.called != nil {
		base = c.called.ctx
	}
	sctx := rpc.NewContext(base)
	s.SetInfo(sctx)
	c.tags = append(c.tags, sctx.Tags...)
	arg, err := s.ToData(buf)
	if err != nil {
		return nil, fmt.Errorf("decoding the argument: %w", err)
	}
	res, err := s.Invoke(sctx, arg)
	if err != nil {
		return nil, err
	}
	if s.FormData == nil {
		return nil, nil
	}
	out, err := s.FormData(res)
	if err != nil {
		return nil, fmt.Errorf("encoding the result: %w", err)
	}
	c.raw = append(c.raw, string(out))
	if in.ToData == nil {
		return nil, errors.New("client drops a result")
	}
	return in.ToData(out)
}

// station is what serves requests: the routers of some servers and the implementations behind them.
type station struct {
	srv  *rpc.Server
	recs map[string]*Rec
}

var stations = map[string]*station{}

type mgr map[string]any

func (m mgr) Get(router rpc.ServerClient) any {
	v, ok := m[router.GetName()]
	if !ok {
		return nil
	}
	return v
}

func newData(t string) reflect.Value {
	f := Data[t]
	if f == nil {
		fail("no type %s", t)
	}
	return reflect.ValueOf(f())
}

func fields(rv reflect.Value) any { return Get(rv) }

func errText(v reflect.Value) any {
	if v.IsNil() {
		return nil
	}
	e := v.Interface().(error)
	var res *rpc.Result
	if errors.As(e, &res) {
		return map[string]any{"code": res.Code, "msg": res.Msg}
	}
	return e.Error()
}

func method(rv reflect.Value, name string) reflect.Value {
	m := rv.MethodByName(name)
	if !m.IsValid() {
		fail("%s has no method %s", rv.Type(), name)
	}
	return m
}

func init() {
	// json: what a value is written as, and what that reads back as
	ops["json"] = func(o *Op) any {
		p := newData(o.T)
		Set(p.Elem(), o.V)
		b, err := p.Interface().(hbuf.Data).ToData()
		if err != nil {
			return map[string]any{"err": err.Error()}
		}
		q := newData(o.T)
		if err := q.Interface().(hbuf.Data).FormData(b); err != nil {
			return map[string]any{"json": string(b), "err": err.Error()}
		}
		return map[string]any{"json": string(b), "back": Get(q), "same": reflect.DeepEqual(Get(p), Get(q)), "after": Get(p)}
	}
	// parse: what a document reads as
	ops["parse"] = func(o *Op) any {
		q := newData(o.T)
		if err := q.Interface().(hbuf.Data).FormData([]byte(o.Text)); err != nil {
			return map[string]any{"err": err.Error()}
		}
		return map[string]any{"back": Get(q)}
	}
	// zero: what a fresh value holds
	ops["zero"] = func(o *Op) any { return Get(newData(o.T)) }
	// history: accessor calls on one value
	ops["history"] = func(o *Op) any {
		p := newData(o.T)
		Set(p.Elem(), o.V)
		steps := []any{}
		for _, q := range o.Seq {
			st := map[string]any{}
			if q.Op == "set" {
				set := method(p, "Set"+q.M)
				x := reflect.New(set.Type().In(0)).Elem()
				Set(x, q.X)
				set.Call([]reflect.Value{x})
			} else {
				st["get"] = Get(method(p, "Get"+q.M).Call(nil)[0])
			}
			st["all"] = Get(p)
			steps = append(steps, st)
		}
		return map[string]any{"steps": steps}
	}
	ops["members"] = func(o *Op) any {
		t := newData(o.T).Elem().Type()
		var fs, em []string
		for _, f := range reflect.VisibleFields(t) {
			if f.Anonymous {
				em = append(em, f.Name)
			} else {
				fs = append(fs, f.Name+" "+f.Type.String())
			}
		}
		var ms []string
		p := reflect.PointerTo(t)
		for i := 0; i < p.NumMethod(); i++ {
			ms = append(ms, p.Method(i).Name)
		}
		return map[string]any{"fields": fs, "embedded": em, "methods": ms}
	}
	// asbase: the base of V reached through the embedded types Texts, before and after the base is given X
	ops["asbase"] = func(o *Op) any {
		p := newData(o.T)
		Set(p.Elem(), o.V)
		b := p.Elem()
		for _, n := range o.Texts {
			b = b.FieldByName(n)
		}
		out := map[string]any{"base": Get(b.Addr())}
		Set(b, o.X)
		out["child"] = Get(p)
		return out
	}
	ops["enum"] = func(o *Op) any {
		e := Enums[o.T]
		if e == nil {
			fail("no enum %s", o.T)
		}
		names := map[string]string{}
		for _, n := range o.Nums {
			names[fmt.Sprint(n)] = e.ToName(n)
			if e.Pointer(n) != n {
				return map[string]any{"err": fmt.Sprintf("Pointer of %d points to %d", n, e.Pointer(n))}
			}
		}
		return map[string]any{"consts": e.Consts, "names": names, "values": e.Values()}
	}
	ops["verify"] = func(o *Op) any {
		p := newData(o.T)
		Set(p.Elem(), o.V)
		r := method(p, "Verify"+o.M).Call([]reflect.Value{reflect.ValueOf(context.Background())})
		return map[string]any{"err": errText(r[0]), "after": Get(p)}
	}
	// calls: calls through one client of T; the routers of all servers in Texts are on the transport
	ops["calls"] = func(o *Op) any {
		srv := rpc.NewServer()
		recs := map[string]*Rec{}
		for _, n := range o.Texts {
			recs[n] = &Rec{}
			srv.Add(Servers[n].NewRouter(recs[n]))
		}
		c := &client{srv: srv}
		cl := reflect.ValueOf(Servers[o.T].NewClient(c))
		steps := []any{}
		for _, q := range o.Seq {
			c.caller, c.called = newWatch(context.Background()), newWatch(context.Background())
			for _, r := range recs {
				r.Calls, r.Err, r.Result, r.Watch = nil, nil, q.X, c.called
				if q.Err != "" {
					r.Err = errors.New(q.Err)
				}
			}
			c.routes, c.tags, c.raw = nil, nil, nil
			m := method(cl, q.M)
			arg := reflect.New(m.Type().In(1).Elem())
			Set(arg.Elem(), q.V)
			r := m.Call([]reflect.Value{reflect.ValueOf(c.caller.ctx), arg})
			out := map[string]any{"ctx": append(c.caller.end(), c.called.end()...)}
			if len(r) == 2 {
				out["result"] = Get(r[0])
			}
			out["err"] = errText(r[len(r)-1])
			seen := []any{}
			for n, r := range recs {
				for _, k := range r.Calls {
					k.(map[string]any)["server"] = n
					seen = append(seen, k)
				}
			}
			out["calls"] = seen
			out["routes"] = c.routes
			out["tags"] = c.tags
			out["arg"] = Get(arg)
			steps = append(steps, out)
		}
		return map[string]any{"steps": steps}
	}
	ops["server"] = func(o *Op) any {
		s := Servers[o.T]
		if s == nil {
			fail("no server %s", o.T)
		}
		rec := &Rec{}
		router := s.NewRouter(rec)
		out := map[string]any{"name": router.GetName(), "own": router.GetServer() != nil}
		var keys []string
		for k := range router.GetInvoke() {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		out["keys"] = keys
		cl := s.NewClient(&client{srv: rpc.NewServer()})
		out["client"] = cl.(rpc.ServerClient).GetName()
		ctx := manage.With(context.Background(), mgr{})
		out["notfound"] = s.Get(ctx) == s.NotFound
		impl := router.GetServer()
		ctx = manage.With(context.Background(), mgr{router.GetName(): impl})
		out["found"] = s.Get(ctx) == any(impl)
		return out
	}
	// routes: the path every method of a client is sent under, and the method that every path of a router reaches
	ops["routes"] = func(o *Op) any {
		s := Servers[o.T]
		if s == nil {
			fail("no server %s", o.T)
		}
		c := &client{srv: rpc.NewServer()}
		cl := reflect.ValueOf(s.NewClient(c))
		sent := map[string][]string{}
		for _, n := range o.Texts {
			c.routes = nil
			m := method(cl, n)
			m.Call([]reflect.Value{reflect.ValueOf(context.Background()), reflect.New(m.Type().In(1).Elem())})
			sent[n] = c.routes
		}
		rec := &Rec{}
		router := s.NewRouter(rec)
		srv := rpc.NewServer()
		srv.Add(router)
		reach := map[string]any{}
		for path, inv := range srv.Router() {
			rec.Calls = nil
			arg, err := inv.ToData([]byte("{}"))
			if err != nil {
				reach[path] = "error " + err.Error()
				continue
			}
			inv.Invoke(rpc.NewContext(context.Background()), arg)
			var ms []any
			for _, x := range rec.Calls {
				ms = append(ms, x.(map[string]any)["method"])
			}
			reach[path] = ms
		}
		return map[string]any{"sent": sent, "reach": reach, "client": cl.Interface().(rpc.ServerClient).GetName(), "server": router.GetName()}
	}
	// send: what a client sends for a call, and what it makes of the reply Text
	ops["send"] = func(o *Op) any {
		c := &capture{reply: o.Text}
		m := method(reflect.ValueOf(Servers[o.T].NewClient(c)), o.M)
		arg := reflect.New(m.Type().In(1).Elem())
		Set(arg.Elem(), o.V)
		r := m.Call([]reflect.Value{reflect.ValueOf(context.Background()), arg})
		out := map[string]any{"path": c.path, "body": c.body, "err": errText(r[len(r)-1])}
		if len(r) == 2 && !r[0].IsNil() {
			out["ret"] = Get(r[0])
		}
		return out
	}
	// serve: what the routers of the servers Texts do with a request; the same routers serve all requests
	ops["serve"] = func(o *Op) any {
		key := strings.Join(o.Texts, "\n")
		st := stations[key]
		if st == nil {
			st = &station{rpc.NewServer(), map[string]*Rec{}}
			for _, n := range o.Texts {
				st.recs[n] = &Rec{}
				st.srv.Add(Servers[n].NewRouter(st.recs[n]))
			}
			stations[key] = st
		}
		srv, recs := st.srv, st.recs
		for _, rec := range recs {
			rec.Calls, rec.Result, rec.Err = nil, o.X, nil
		}
		w := newWatch(context.Background())
		for _, rec := range recs {
			rec.Watch = w
		}
		out := map[string]any{}
		inv := srv.Router()["/"+o.Text]
		if inv == nil {
			return map[string]any{"none": o.Text}
		}
		arg, err := inv.ToData([]byte(o.Opt["body"]))
		if err != nil {
			return map[string]any{"err": err.Error()}
		}
		res, err := inv.Invoke(rpc.NewContext(w.ctx), arg)
		out["ctx"] = w.end()
		if err != nil {
			out["err"] = err.Error()
		} else if inv.FormData != nil {
			b, err := inv.FormData(res)
			if err != nil {
				return map[string]any{"err": err.Error()}
			}
			out["reply"] = string(b)
		}
		var log []any
		for n, r := range recs {
			for _, x := range r.Calls {
				x.(map[string]any)["server"] = n
				log = append(log, x)
			}
		}
		out["log"] = log
		return out
	}
	// default: the answer of a server nobody implemented
	ops["default"] = func(o *Op) any {
		d := reflect.ValueOf(Servers[o.T].Default())
		m := method(d, o.M)
		arg := reflect.New(m.Type().In(1).Elem())
		if o.V != nil {
			Set(arg.Elem(), o.V)
		}
		ctx := context.Background()
		if o.Opt["bind"] != "" {
			rec := &Rec{Result: o.X}
			if o.Err != "" {
				rec.Err = errors.New(o.Err)
			}
			b := Servers[o.Opt["bind"]].NewRouter(rec)
			ctx = manage.With(ctx, mgr{b.GetName(): b.GetServer()})
			rec.Watch = newWatch(ctx)
			r := m.Call([]reflect.Value{reflect.ValueOf(rec.Watch.ctx), arg})
			out := map[string]any{"err": errText(r[len(r)-1]), "calls": rec.Calls, "ctx": rec.Watch.end()}
			if len(r) == 2 {
				out["result"] = Get(r[0])
			}
			return out
		}
		r := m.Call([]reflect.Value{reflect.ValueOf(manage.With(ctx, mgr{})), arg})
		out := map[string]any{"err": errText(r[len(r)-1])}
		if len(r) == 2 {
			out["result"] = Get(r[0])
		}
		return out
	}
}

func run(o *Op) (out any) {
	defer func() {
		if p := recover(); p != nil {
			if b, ok := p.(bad); ok {
				out = map[string]any{"misfit": b.msg}
				return
			}
			out = map[string]any{"panic": fmt.Sprint(p), "stack": string(debug.Stack())}
		}
	}()
	f := ops[o.Op]
	if f == nil {
		fail("no operation %s", o.Op)
	}
	return f(o)
}

// Main performs the operations on standard input.
func Main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	w := bufio.NewWriterSize(os.Stdout, 1<<16)
	dec := json.NewDecoder(in)
	dec.UseNumber()
	enc := json.NewEncoder(w)
	for {
		var o Op
		if err := dec.Decode(&o); err != nil {
			break
		}
		enc.Encode(run(&o))
		w.Flush()
	}
}
