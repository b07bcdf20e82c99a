package main

import (
	"encoding/json"
	"fmt"
	"time"

	"verif/harness/internal/cli"
	"verif/harness/internal/model"
	"verif/harness/internal/report"
	"verif/harness/internal/tsws"
)

func init() {
	checks["C22"] = c22
}

// tsOpts are schemas whose names are legal and distinct in TypeScript.
var tsOpts = model.Opts{Files: 4, Decls: 7, Servers: true, Subdirs: true, Packages: true, NoPkg: true, Docs: true, TypeCase: true, Override: true, Diamond: true, HexIds: true, NoZero: true, Mutual: true, EmptyEnum: true,
	MapKeys: []string{model.Int8, model.Int16, model.Int32, model.Int64, model.Uint8, model.Uint16, model.Uint32, model.Uint64, model.String, model.Bool, model.Date, model.Decimal}}

func c22() {
	r := report.New("C22", "a random valid schema set (inheritance, several files, every tag the TypeScript target knows) whose TypeScript output is compiled, strictly, together with statements about the type of every member, enum and method; non-trivial: at least two files or eight declarations")
	bin := cli.Build(r)
	dl := r.Budget(100*time.Second, 10*time.Minute)
	for n := 0; n < r.N(8, 100) && time.Now().Before(dl); n++ {
		b := tsws.New(r, bin)
		for i := 0; i < 60; i++ {
			rng := model.NewRng(r.Seed*1_300_003 + int64(n*1000+i))
			s := model.GenSchema(rng, tsOpts)
			if rng.P(0.3) {
				model.AddTags(rng, s)
			}
			if rng.P(0.8) {
				model.AddDomainTags(rng, s, model.Domain{Verify: rng.P(0.6), Lang: rng.P(0.6), RpcTag: rng.P(0.3), UI: rng.P(0.6), Bind: rng.P(0.3), DB: rng.P(0.2)})
			}
			c := b.Add(s, s.Sources(rng))
			nd := 0
			for _, f := range s.Files {
				nd += len(f.Decls)
			}
			r.Case(cli.Hash(c.Src), len(s.Files) > 1 || nd >= 8)
			r.Count("declarations", int64(nd))
		}
		b.Compile()
		b.Report()
		for _, c := range b.Good() {
			r.Count("files compiled", int64(len(c.Files)))
		}
		r.Count("schemas compiled", int64(len(b.Good())))
		b.Drop()
	}
	r.Finish()
}

// tsRun generates and compiles batches of schemas and hands each to f.
func tsRun(r *report.Run, quick, thorough, per int, o model.Opts, prep func(*model.Rng, *model.Schema), f func(b *tsws.Batch, rng *model.Rng)) {
	bin := cli.Build(r)
	dl := r.Budget(100*time.Second, 12*time.Minute)
	for n := 0; n < r.N(quick, thorough) && time.Now().Before(dl); n++ {
		b := tsws.New(r, bin)
		for i := 0; i < per; i++ {
			rng := model.NewRng(r.Seed*17_000_003 + int64(n*1000+i))
			s := model.GenSchema(rng, o)
			if prep != nil {
				prep(rng, s)
			}
			b.Add(s, s.Sources(nil))
		}
		b.Compile()
		b.Report()
		r.Count("schemas compiled", int64(len(b.Good())))
		f(b, model.NewRng(r.Seed*19_000_003+int64(n)))
		b.Drop()
	}
	r.Finish()
}

// tsTodo is an operation with what judges its result.
type tsTodo struct {
	c    *tsws.Case
	op   tsws.Op
	what string
	f    func(res map[string]any) (key, detail string)
}

// tsPerform runs operations and reports the verdicts.
func tsPerform(r *report.Run, b *tsws.Batch, ts []*tsTodo) {
	ops := make([]tsws.Op, len(ts))
	for i, t := range ts {
		ops[i] = t.op
	}
	for i, res := range b.Run(ops) {
		t := ts[i]
		key, detail := "", ""
		switch {
		case res == nil:
			key, detail = "driver-answer", "no answer"
		case res["panic"] != nil:
			key, detail = "panic", fmt.Sprint(res["panic"], "\n", res["stack"])
		case res["misfit"] != nil:
			key, detail = "misfit", fmt.Sprint(res["misfit"])
		default:
			key, detail = t.f(res)
		}
		sample(r, i, t.what, t.op, res)
		if key != "" {
			in, _ := json.MarshalIndent(t.op, "", " ")
			out, _ := json.MarshalIndent(res, "", " ")
			r.Violation(key, t.what+": "+detail, t.c.Replay(fmt.Sprintf("%s\n%s\noperation %s\nobserved %s", t.what, detail, in, out)))
		}
	}
}
