package main

import (
	"encoding/json"
	"fmt"
	"os"
	"regexp"
	"strings"
	"time"

	"verif/harness/internal/cli"
	"verif/harness/internal/gows"
	"verif/harness/internal/model"
	"verif/harness/internal/report"
)

func init() { checks["C33"] = c33 }

// parallel generated code: many goroutines use it at once, under the race detector.
func c33() {
	r := report.New("C33", "a group of operations (calls through shared clients and routers, encodings, look-ups, verifications, database functions, readers of one shared value) that many goroutines perform at once in race-detecting generated Go; non-trivial: at least two different operations")
	bin := cli.Build(r)
	dl := r.Budget(100*time.Second, 12*time.Minute)
	for n := 0; n < r.N(4, 60) && time.Now().Before(dl); n++ {
		b := gows.New(r, bin)
		b.Race = true
		for i := 0; i < 20; i++ {
			rng := model.NewRng(r.Seed*13_000_003 + int64(n*1000+i))
			o := goOpts
			if i%2 == 1 {
				o = dbOpts
			}
			o.MoreServers = true
			s := model.GenSchema(rng, o)
			if i%2 == 1 {
				model.AddDB(rng, s, rng.P(0.3))
			} else {
				model.AddDomainTags(rng, s, model.Domain{Verify: true, RpcTag: true, Bind: rng.P(0.5)})
			}
			b.Add(s, s.Sources(nil))
		}
		b.Compile()
		b.Report()
		r.Count("schemas compiled with the race detector", int64(len(b.Good())))
		rng := model.NewRng(r.Seed*17_000_003 + int64(n))
		var ts []*todo
		for _, c := range b.Good() {
			ts = append(ts, parCalls(r, c, rng)...)
			ts = append(ts, parMixed(r, c, rng)...)
			ts = append(ts, parReaders(r, c, rng)...)
			ts = append(ts, parDB(r, c, rng)...)
		}
		perform(r, b, ts)
		for _, x := range b.Races() {
			if x.C == nil {
				fmt.Println("harness error: a race outside the generated code:\n" + x.Text)
				os.Exit(2)
			}
			r.Violation("race-"+raceKey(x.Text), "the race detector reports generated code:\n"+x.Text, x.C.Replay(x.Text))
		}
		b.Drop()
	}
	r.Finish()
}

var raceFrame = regexp.MustCompile(`(?m)^  (\S+)\(\)\n\s+\S*/p/s\d+/`)

// raceKey names the function of the generated code that takes part in a race.
func raceKey(t string) string {
	m := raceFrame.FindStringSubmatch(t)
	if m == nil {
		return "unknown"
	}
	s := m[1][strings.LastIndex(m[1], "/")+1:]
	for _, p := range []string{"ToData", "FormData", "Verify", "Db", "Get", "Set", "Router", "Client"} {
		if strings.Contains(s, p) {
			return p
		}
	}
	return "other"
}

const goroutines = 8

func intOf(v any) int64 {
	n, _ := v.(json.Number)
	i, _ := n.Int64()
	return i
}

func parNums(rng *model.Rng, reps int) []int { return []int{goroutines, reps, rng.Intn(1 << 30)} }

// together judges the answer of parallel, readers and dbpar.
func together(r *report.Run, seq []*gows.Op, what string) func(res gows.Res) (string, string) {
	return func(res gows.Res) (string, string) {
		r.Count("operations performed side by side ("+what+")", intOf(res["ran"]))
		l, _ := res["differ"].([]any)
		for _, x := range l {
			m := asMap(x)
			name := ""
			if ns, ok := res["names"].([]any); ok {
				name = fmt.Sprint(ns[intOf(m["job"])])
			} else {
				name = seq[intOf(m["job"])].Op + " " + seq[intOf(m["job"])].T + " " + seq[intOf(m["job"])].M
			}
			return "together-" + what, fmt.Sprintf("%s gives something else when others run: alone %v, together %v", name, m["alone"], m["together"])
		}
		if res["before"] != res["after"] {
			return "readers-change", fmt.Sprintf("reading changes the value from %v to %v", res["before"], res["after"])
		}
		return "", ""
	}
}

// parCalls: all servers of a schema, shared by many callers.
func parCalls(r *report.Run, c *gows.Case, rng *model.Rng) []*todo {
	op := &gows.Op{Op: "shared", Nums: parNums(rng, 6)}
	var calls []call
	for _, s := range c.S.Servers() {
		op.Texts = append(op.Texts, c.Server(s))
		for _, m := range s.AllMethods() {
			for i := 0; i < 2; i++ {
				k, o := newCall(rng, s, m)
				o.T = c.Server(s)
				op.Seq = append(op.Seq, o)
				calls = append(calls, k)
			}
		}
	}
	if len(calls) == 0 {
		return nil
	}
	r.Case("calls "+model.Show(op), len(calls) > 2)
	return []*todo{{c: c, op: op, what: "calls of all servers at once", f: func(res gows.Res) (string, string) {
		r.Count("operations performed side by side (calls)", intOf(res["ran"]))
		l, _ := res["steps"].([]any)
		if len(l) != len(calls) {
			return "driver-answer", "too few steps"
		}
		for i, k := range calls {
			at := fmt.Sprintf("%s.%s among others", k.s.Name, k.m.Name)
			outs, _ := l[i].([]any)
			for _, x := range outs {
				o := asMap(x)
				if o["panic"] != nil {
					return "shared-panic", fmt.Sprintf("%s: %v", at, o["panic"])
				}
				if key, e := k.judge(c, o, at); key != "" {
					return "shared-" + key, e
				}
			}
			r.Count("distinct outcomes of calls among others", int64(len(outs)))
		}
		return "", ""
	}}}
}

// parMixed: encodings, look-ups, verifications and calls of own clients.
func parMixed(r *report.Run, c *gows.Case, rng *model.Rng) []*todo {
	op := &gows.Op{Op: "parallel", Nums: parNums(rng, 4)}
	for _, d := range c.S.Datas() {
		for i := 0; i < 2; i++ {
			v := gows.ToGo(d, rng.DataVal(d, 2))
			op.Seq = append(op.Seq, &gows.Op{Op: "json", T: c.Data(d), V: v})
		}
		op.Seq = append(op.Seq, &gows.Op{Op: "zero", T: c.Data(d)}, &gows.Op{Op: "parse", T: c.Data(d), Text: "{}"})
		bfs := d.BoundFields()
		v := model.Obj{}
		any := false
		for _, bf := range bfs {
			v[bf.Name] = rng.VerifyVal(bf, 1)
			any = any || model.HasTag(bf.Tags, "verify")
		}
		for _, bf := range bfs {
			if model.HasTag(bf.Tags, "verify") {
				op.Seq = append(op.Seq, &gows.Op{Op: "verify", T: c.Data(d), M: model.Hump(bf.Name), V: gows.ToGo(d, v)})
			}
		}
		if any && model.HasTag(d.Tags, "verify") {
			op.Seq = append(op.Seq, &gows.Op{Op: "verify", T: c.Data(d), V: gows.ToGo(d, v)})
		}
		h := &gows.Op{Op: "history", T: c.Data(d), V: gows.ToGo(d, rng.DataVal(d, 2))}
		for _, f := range d.AllFields() {
			h.Seq = append(h.Seq, &gows.Op{Op: "get", M: model.Hump(f.Name)})
		}
		op.Seq = append(op.Seq, h)
	}
	for _, e := range c.S.Enums() {
		var ns []int
		for _, it := range e.Items {
			ns = append(ns, it.Value, it.Value+1)
		}
		op.Seq = append(op.Seq, &gows.Op{Op: "enum", T: c.Enum(e), Nums: ns})
	}
	for _, s := range c.S.Servers() {
		op.Seq = append(op.Seq, &gows.Op{Op: "server", T: c.Server(s)})
		for _, t := range defaults(r, c, s, rng) {
			op.Seq = append(op.Seq, t.op)
		}
	}
	if len(op.Seq) == 0 {
		return nil
	}
	kinds := map[string]bool{}
	for _, o := range op.Seq {
		kinds[o.Op] = true
		r.Seen("operations side by side", o.Op)
	}
	r.Case("mixed "+model.Show(op), len(kinds) > 1)
	return []*todo{{c: c, op: op, what: "operations side by side", f: together(r, op.Seq, "mixed")}}
}

// parReaders: one value of each type, read by many.
func parReaders(r *report.Run, c *gows.Case, rng *model.Rng) (ts []*todo) {
	for _, d := range c.S.Datas() {
		op := &gows.Op{Op: "readers", T: c.Data(d), V: gows.ToGo(d, rng.DataVal(d, 2)), Nums: parNums(rng, 4)}
		if rng.P(0.3) {
			op.V = gows.ToGo(d, model.Obj{})
		}
		r.Case("readers "+model.Show(op), len(d.AllFields()) > 1)
		ts = append(ts, &todo{c: c, op: op, what: "readers of one value of data " + d.Name, f: together(r, nil, "readers")})
	}
	return
}

// parDB: the functions of all requests of each table.
func parDB(r *report.Run, c *gows.Case, rng *model.Rng) (ts []*todo) {
	for _, t := range tables(c) {
		var rows []*row
		for i := rng.Range(2, 6); i > 0; i-- {
			rows = append(rows, t.newRow(rng))
		}
		op := &gows.Op{Op: "dbpar", Nums: parNums(rng, 3), Seq: []*gows.Op{t.create(), t.seed(rows)}}
		var seq []*gows.Op
		for _, k := range t.calls(func(q *model.DB, op string) bool { return true }) {
			for i := 0; i < 2; i++ {
				x := t.callOf(rng, k.q, k.op, t.keys(rng, rows)).step()
				if dbReads[k.op] && i == 0 {
					x.Opt = map[string]string{"share": "1"}
				}
				seq = append(seq, x)
				r.Seen("database functions side by side", k.op)
			}
		}
		if len(seq) == 0 {
			continue
		}
		op.Seq = append(op.Seq, seq...)
		r.Case("db "+model.Show(op), len(seq) > 2)
		ts = append(ts, &todo{c: c, op: op, what: "functions of table " + t.e.Table + " side by side", f: together(r, seq, "database")})
	}
	return
}
