package main

import (
	"fmt"
	"time"

	"verif/harness/internal/cli"
	"verif/harness/internal/gows"
	"verif/harness/internal/model"
	"verif/harness/internal/report"
)

func init() {
	checks["C11"] = c11
}

// goOpts are schemas whose names are legal and distinct in Go.
var goOpts = model.Opts{Files: 4, Decls: 7, Servers: true, Subdirs: true, Packages: true, DotPkg: true, Docs: true, TypeCase: true, Override: true, Diamond: true, HexIds: true, NoZero: true, Mutual: true, EmptyEnum: true}

func c11() {
	r := report.New("C11", "a random valid schema set (inheritance, several files and packages, every tag the Go target knows) whose Go output is compiled; non-trivial: at least two packages or eight declarations")
	bin := cli.Build(r)
	dl := r.Budget(100*time.Second, 10*time.Minute)
	for n := 0; n < r.N(10, 100) && time.Now().Before(dl); n++ {
		b := gows.New(r, bin)
		for i := 0; i < 40; i++ {
			rng := model.NewRng(r.Seed*1_000_003 + int64(n*1000+i))
			s := model.GenSchema(rng, goOpts)
			if rng.P(0.3) {
				model.AddTags(rng, s)
			}
			if rng.P(0.7) {
				model.AddDomainTags(rng, s, model.DomainAny)
			}
			c := b.Add(s, s.Sources(rng))
			nd := 0
			for _, f := range s.Files {
				nd += len(f.Decls)
			}
			pk := map[string]bool{}
			for _, f := range s.Files {
				pk[f.GoPkg] = true
			}
			r.Case(cli.Hash(c.Src), len(pk) > 1 || nd >= 8)
			r.Count("declarations", int64(nd))
			r.Count("packages", int64(len(pk)))
		}
		b.Compile()
		b.Report()
		r.Count("schemas compiled", int64(len(b.Good())))
		b.Drop()
	}
	if r.Violated() {
		fmt.Println("see replay files")
	}
	r.Finish()
}
