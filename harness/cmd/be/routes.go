package main

import (
	"fmt"
	"sort"
	"strings"

	"verif/harness/internal/gows"
	"verif/harness/internal/javaws"
	"verif/harness/internal/model"
	"verif/harness/internal/report"
	"verif/harness/internal/tsws"
)

func init() {
	checks["C16"] = c16
	checks["C31"] = c31
}

// routeTable is what one language's client and router of a server do.
type routeTable struct {
	lang           string
	client, server string              // the names they give themselves
	sent           map[string][]string // method: the paths it was sent under
	reach          map[string][]string // path: the methods that ran; nil without a router
	replay         func(string) string
}

func texts(x any) (out []string) {
	l, _ := x.([]any)
	for _, e := range l {
		out = append(out, fmt.Sprint(e))
	}
	return
}

func c16() {
	r := report.New("C16", "a server of a random valid schema set: the path under which each generated client (Go, TypeScript, Java, Dart) sends each method and the method that each path of each generated router (Go, TypeScript, Dart) reaches, compared across languages; non-trivial: the server has at least two methods")
	o := allOpts
	o.MoreServers = true
	allRun(r, 5, 60, 50, o, func(rng *model.Rng, s *model.Schema) {
		for _, v := range s.Servers() {
			ms := v.AllMethods()
			var sig []string
			for _, m := range ms {
				sig = append(sig, m.Name)
			}
			r.Case(v.Name+" "+strings.Join(sig, " "), len(ms) > 1)
			r.Seen("server shapes", fmt.Sprintf("%d own methods, %d inherited, %d bases", len(v.Methods), len(ms)-len(v.Methods), len(v.Extends)))
		}
	}, func(l *langs, rng *model.Rng) {
		tabs := map[*model.Server][]*routeTable{}
		var gs []*todo
		for _, c := range l.g.Good() {
			for _, s := range c.S.Servers() {
				var ms []string
				for _, m := range s.AllMethods() {
					ms = append(ms, model.Hump(m.Name))
				}
				gs = append(gs, &todo{c: c, what: "server " + s.Name, op: &gows.Op{Op: "routes", T: c.Server(s), Texts: ms}, f: func(res gows.Res) (string, string) {
					t := &routeTable{lang: "Go", client: fmt.Sprint(res["client"]), server: fmt.Sprint(res["server"]), sent: map[string][]string{}, reach: map[string][]string{}, replay: c.Replay}
					byHump := map[string]string{}
					for _, m := range s.AllMethods() {
						byHump[model.Hump(m.Name)] = m.Name
						t.sent[m.Name] = texts(asMap(res["sent"])[model.Hump(m.Name)])
					}
					for p, x := range asMap(res["reach"]) {
						var ms []string
						for _, m := range texts(x) {
							if n, ok := byHump[m]; ok {
								m = n
							}
							ms = append(ms, m)
						}
						t.reach[strings.TrimPrefix(p, "/")] = ms
					}
					tabs[s] = append(tabs[s], t)
					return "", ""
				}})
			}
		}
		perform(r, l.g, gs)
		var ts []*tsTodo
		for _, c := range l.t.Good() {
			for _, s := range c.S.Servers() {
				ts = append(ts, &tsTodo{c: c, what: "server " + s.Name, op: tsws.Op{"op": "routes", "t": c.Server(s)}, f: func(res map[string]any) (string, string) {
					t := &routeTable{lang: "TypeScript", client: fmt.Sprint(res["client"]), server: fmt.Sprint(res["server"]), sent: map[string][]string{}, reach: map[string][]string{}, replay: c.Replay}
					for m, x := range asMap(res["sent"]) {
						t.sent[m] = texts(x)
					}
					for p, x := range asMap(res["reach"]) {
						t.reach[p] = texts(x)
					}
					tabs[s] = append(tabs[s], t)
					return "", ""
				}})
			}
		}
		tsPerform(r, l.t, ts)
		var js []*javaTodo
		for _, c := range l.j.Good() {
			for _, s := range c.S.Servers() {
				js = append(js, &javaTodo{c: c, what: "server " + s.Name, op: javaws.Op{"op": "routes", "t": c.Server(s)}, f: func(res map[string]any) (string, string) {
					t := &routeTable{lang: "Java", client: fmt.Sprint(res["client"]), server: fmt.Sprint(res["client"]), sent: map[string][]string{}, replay: c.Replay}
					for m, x := range asMap(res["sent"]) {
						l, _ := asMap(x)["sent"].([]any)
						t.sent[m] = []string{}
						for _, e := range l {
							t.sent[m] = append(t.sent[m], fmt.Sprint(asMap(e)["server"], "/", asMap(e)["name"]))
							if asMap(e)["param"] != true {
								return "routes-argument", "the client of " + s.Name + " sends another argument than it was given for " + m
							}
						}
					}
					tabs[s] = append(tabs[s], t)
					return "", ""
				}})
			}
		}
		javaPerform(r, l.j, js)
		dartRoutes(r, l.d, tabs)
		var order []*model.Server
		for _, c := range l.g.Cases {
			order = append(order, c.S.Servers()...)
		}
		for _, s := range order {
			if k, d, t := judgeRoutes(r, s, tabs[s]); k != "" {
				r.Violation(k, "server "+s.Name+": "+d, t.replay("server "+s.Name+"\n"+d))
			}
		}
	})
}

// judgeRoutes compares the tables of one server.
func judgeRoutes(r *report.Run, s *model.Server, ts []*routeTable) (string, string, *routeTable) {
	ms := s.AllMethods()
	want := map[string]bool{}
	for _, m := range ms {
		want[m.Name] = true
	}
	for _, t := range ts {
		if t.client != t.server {
			return "names", fmt.Sprintf("the %s client calls itself %q, the router %q", t.lang, t.client, t.server), t
		}
		path := map[string]string{}
		for _, m := range ms {
			l := t.sent[m.Name]
			r.Count("routes sent", int64(len(l)))
			if len(l) != 1 {
				return "sent", fmt.Sprintf("a call of %s through the %s client is sent under %q", m.Name, t.lang, l), t
			}
			if o, ok := path[l[0]]; ok {
				return "same-path", fmt.Sprintf("the %s client sends %s and %s under %s", t.lang, o, m.Name, l[0]), t
			}
			path[l[0]] = m.Name
			for _, u := range ts {
				if u.reach == nil {
					continue
				}
				got, ok := u.reach[l[0]]
				r.Count("routes resolved across languages", 1)
				switch {
				case !ok:
					return "no-route", fmt.Sprintf("the %s client sends %s under %s, which the %s router does not answer: it answers %s", t.lang, m.Name, l[0], u.lang, strings.Join(sortedKeys(u.reach), " ")), t
				case len(got) != 1 || got[0] != m.Name:
					return "wrong-method", fmt.Sprintf("the %s client sends %s under %s, which in the %s router reaches %q", t.lang, m.Name, l[0], u.lang, got), t
				}
			}
		}
		if t.reach != nil && len(t.reach) != len(ms) {
			return "more-routes", fmt.Sprintf("the %s router answers %s, more than the %d methods", t.lang, strings.Join(sortedKeys(t.reach), " "), len(ms)), t
		}
	}
	return "", "", nil
}

// call is a call from one language to another.
type xcall struct {
	s          *model.Server
	m          model.BoundMethod
	arg, res   model.Obj
	path, body map[string]string // by language of the client
	reply      map[string]string // by language of the router
	n          int               // case
}

func c31() {
	r := report.New("C31", "a call of a generated method: the request each generated client (Go, TypeScript, Dart) writes is given to each generated router, whose implementation's argument is compared, and the reply each router writes is read by each client; non-trivial: the argument or result type has at least two members")
	o := allOpts
	o.MoreServers = true
	o.EmptyEnum = false
	allRun(r, 5, 60, 30, o, nil, func(l *langs, rng *model.Rng) {
		var calls []*xcall
		for i, c := range l.g.Cases {
			for _, s := range c.S.Servers() {
				for _, m := range s.AllMethods() {
					for k := 0; k < 2; k++ {
						x := &xcall{s: s, m: m, n: i, arg: rng.DataVal(m.Param, 2), path: map[string]string{}, body: map[string]string{}, reply: map[string]string{}}
						nt := len(m.Param.AllFields()) > 1
						if m.Result != nil {
							x.res = rng.DataVal(m.Result, 2)
							nt = nt || len(m.Result.AllFields()) > 1
						}
						if hasBytes(m.Param, map[*model.Data]bool{}) || m.Result != nil && hasBytes(m.Result, map[*model.Data]bool{}) {
							continue // written by Go in its own way: a known finding of C12 and C23
						}
						r.Case(s.Name+"."+m.Name+model.Show(x.arg)+model.Show(x.res), nt)
						calls = append(calls, x)
					}
				}
			}
		}
		sides := []*side{goSide(r, l.g), tsSide(r, l.t), dartSide(r, l.d)}
		for _, cl := range sides { // what the clients send
			cl.send(calls, func(x *xcall) []string { return []string{""} }, func(x *xcall, from string, path, body string, ret model.Obj, err string) (string, string) {
				r.Count("requests written ("+cl.lang+")", 1)
				if path == "" {
					return "send", "nothing is sent: " + err
				}
				x.path[cl.lang], x.body[cl.lang] = path, body
				return "", ""
			})
		}
		for _, sv := range sides { // what the routers do with it
			sv.serve(calls, func(x *xcall) []string { return sortedKeys(x.path) }, func(x *xcall, from string, log []any, reply, err string) (string, string) {
				r.Count("requests served ("+from+" to "+sv.lang+")", 1)
				at := fmt.Sprintf("%s.%s sent by %s under %s, served by %s", x.s.Name, x.m.Name, from, x.path[from], sv.lang)
				if len(log) != 1 {
					return "delivery", fmt.Sprintf("%s: reached %d implementations (error %q)\nrequest %s", at, len(log), err, x.body[from])
				}
				e := asMap(log[0])
				if e["method"] != x.m.Name || e["here"] != true {
					return "delivery", fmt.Sprintf("%s: reached %v of %v", at, e["method"], e["server"])
				}
				if d := model.EqualObj(x.m.Param, x.arg, asMap(e["arg"]), goCmp, "argument"); d != "" {
					return "argument", at + ": " + d + "\nrequest " + x.body[from]
				}
				if e["ctx"] != true {
					return "serve-context", at + ": the implementation is not given the context of the call"
				}
				if err != "" {
					return "serve-error", at + ": " + err
				}
				if x.m.Result == nil && reply != "" && reply != "null" {
					return "void-reply", at + ": a method without a result has the reply " + reply
				}
				if x.m.Result != nil {
					if reply == "" {
						return "no-reply", at + ": no reply"
					}
					x.reply[sv.lang] = reply
				}
				return "", ""
			})
		}
		for _, cl := range sides { // what the clients make of the replies
			cl.send(calls, func(x *xcall) []string { return sortedKeys(x.reply) }, func(x *xcall, from string, path, body string, ret model.Obj, err string) (string, string) {
				r.Count("replies read ("+from+" to "+cl.lang+")", 1)
				at := fmt.Sprintf("%s.%s called by %s, answered by %s", x.s.Name, x.m.Name, cl.lang, from)
				if err != "" || ret == nil {
					return "return", fmt.Sprintf("%s: result %v, error %q\nreply %s", at, ret, err, x.reply[from])
				}
				if d := model.EqualObj(x.m.Result, x.res, ret, goCmp, "result"); d != "" {
					return "result", at + ": " + d + "\nreply " + x.reply[from]
				}
				return "", ""
			})
		}
	})
}

// side is one language's clients and routers.
type side struct {
	lang string
	// send calls the clients; froms gives the languages whose reply is to be read ("" for none)
	send func(calls []*xcall, froms func(*xcall) []string, f func(x *xcall, from, path, body string, ret model.Obj, err string) (string, string))
	// serve gives requests of the languages froms to the routers
	serve func(calls []*xcall, froms func(*xcall) []string, f func(x *xcall, from string, log []any, reply, err string) (string, string))
}

func str(x any) string { s, _ := x.(string); return s }

func goSide(r *report.Run, b *gows.Batch) *side {
	sd := &side{lang: "Go"}
	sd.send = func(calls []*xcall, froms func(*xcall) []string, f func(x *xcall, from, path, body string, ret model.Obj, err string) (string, string)) {
		var ts []*todo
		for _, x := range calls {
			c := b.Cases[x.n]
			if c.Err != "" {
				continue
			}
			for _, from := range froms(x) {
				op := &gows.Op{Op: "send", T: c.Server(x.s), M: model.Hump(x.m.Name), V: gows.ToGo(x.m.Param, x.arg), Text: x.reply[from]}
				ts = append(ts, &todo{c: c, what: "server " + x.s.Name, op: op, f: func(res gows.Res) (string, string) {
					var ret model.Obj
					if x.m.Result != nil && res["ret"] != nil {
						ret = gows.FromGo(x.m.Result, asMap(res["ret"]))
					}
					return f(x, from, str(res["path"]), str(res["body"]), ret, str(res["err"]))
				}})
			}
		}
		perform(r, b, ts)
	}
	sd.serve = func(calls []*xcall, froms func(*xcall) []string, f func(x *xcall, from string, log []any, reply, err string) (string, string)) {
		var ts []*todo
		for _, x := range calls {
			c := b.Cases[x.n]
			if c.Err != "" {
				continue
			}
			var all []string
			for _, s := range c.S.Servers() {
				all = append(all, c.Server(s))
			}
			for _, from := range froms(x) {
				op := &gows.Op{Op: "serve", Texts: all, Text: x.path[from], Opt: map[string]string{"body": x.body[from]}}
				if x.m.Result != nil {
					op.X = gows.ToGo(x.m.Result, x.res)
				}
				ts = append(ts, &todo{c: c, what: "server " + x.s.Name, op: op, f: func(res gows.Res) (string, string) {
					if n := str(res["none"]); n != "" {
						return "no-route", fmt.Sprintf("%s.%s is sent by %s under %s, which no Go router answers", x.s.Name, x.m.Name, from, n)
					}
					log, _ := res["log"].([]any)
					for _, e := range log {
						m := asMap(e)
						m["here"] = m["server"] == c.Server(x.s)
						bad, _ := res["ctx"].([]any)
						m["ctx"] = len(bad) == 0
						if m["method"] == model.Hump(x.m.Name) && m["here"] == true {
							m["method"] = x.m.Name
							m["arg"] = map[string]any(gows.FromGo(x.m.Param, asMap(m["arg"])))
						}
					}
					return f(x, from, log, str(res["reply"]), str(res["err"]))
				}})
			}
		}
		perform(r, b, ts)
	}
	return sd
}

func tsSide(r *report.Run, b *tsws.Batch) *side {
	sd := &side{lang: "TypeScript"}
	sd.send = func(calls []*xcall, froms func(*xcall) []string, f func(x *xcall, from, path, body string, ret model.Obj, err string) (string, string)) {
		var ts []*tsTodo
		for _, x := range calls {
			c := b.Cases[x.n]
			if c.Err != "" {
				continue
			}
			for _, from := range froms(x) {
				op := tsws.Op{"op": "send", "t": c.Server(x.s), "method": x.m.Name, "v": x.arg, "reply": nil}
				if from != "" {
					op["reply"] = x.reply[from]
				}
				ts = append(ts, &tsTodo{c: c, what: "server " + x.s.Name, op: op, f: func(res map[string]any) (string, string) {
					return f(x, from, str(res["path"]), str(res["body"]), asMap(res["ret"]), str(res["err"]))
				}})
			}
		}
		tsPerform(r, b, ts)
	}
	sd.serve = func(calls []*xcall, froms func(*xcall) []string, f func(x *xcall, from string, log []any, reply, err string) (string, string)) {
		var ts []*tsTodo
		for _, x := range calls {
			c := b.Cases[x.n]
			if c.Err != "" {
				continue
			}
			var all []string
			for _, s := range c.S.Servers() {
				all = append(all, c.Server(s))
			}
			sort.Strings(all)
			for _, from := range froms(x) {
				op := tsws.Op{"op": "serve", "servers": all, "path": x.path[from], "body": x.body[from], "answer": nil}
				if x.m.Result != nil {
					op["answer"] = x.res
				}
				ts = append(ts, &tsTodo{c: c, what: "server " + x.s.Name, op: op, f: func(res map[string]any) (string, string) {
					if n := str(res["none"]); n != "" {
						return "no-route", fmt.Sprintf("%s.%s is sent by %s under %s, which no TypeScript router answers", x.s.Name, x.m.Name, from, n)
					}
					log, _ := res["log"].([]any)
					for _, e := range log {
						asMap(e)["here"] = asMap(e)["server"] == c.Server(x.s)
					}
					return f(x, from, log, str(res["reply"]), str(res["err"]))
				}})
			}
		}
		tsPerform(r, b, ts)
	}
	return sd
}
