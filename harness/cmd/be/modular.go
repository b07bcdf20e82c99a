package main

import (
	"fmt"
	"path"
	"strings"
	"time"

	"verif/harness/internal/cli"
	"verif/harness/internal/model"
	"verif/harness/internal/report"
)

func init() { checks["C34"] = c34 }

// relocate puts a schema's files below dir and gives them base names of their own.
func relocate(s *model.Schema, dir, suffix string) {
	for _, f := range s.Files {
		f.Path = dir + "/" + strings.TrimSuffix(f.Path, ".hbuf") + suffix + ".hbuf"
	}
}

func rename(d model.Decl, n string) {
	switch x := d.(type) {
	case *model.Enum:
		x.Name = n
	case *model.Data:
		x.Name = n
	case *model.Server:
		x.Name = n
	}
}

// c34: the output of a file depends on it and its imports alone.
func c34() {
	r := report.New("C34", "two random valid schema sets whose files know nothing of each other, with types of the same names (often of other kinds), compiled for a random target alone, together, file by file, with imports nobody uses and with declarations nobody refers to; the trees are compared byte for byte; non-trivial: both sets write files and share a type name, or a declaration was added")
	bin := cli.Build(r)
	dl := r.Budget(60*time.Second, 10*time.Minute)
	cli.Parallel(12, r.N(4000, 60000), dl, func(i int) {
		rng := model.NewRng(r.Seed*31_000_013 + int64(i))
		t := targets[i%4]
		a, b := model.GenSchema(rng, docsOn), model.GenSchema(rng, docsOn)
		relocate(a, "aa", "")
		relocate(b, "bb", "_b")
		for _, f := range b.Files {
			if f.GoPkg != "" && rng.P(0.7) {
				f.GoPkg += "q"
			}
		}
		// the same names
		used := map[string]bool{}
		var an []string
		for _, f := range b.Files {
			for _, d := range f.Decls {
				used[model.Hump(d.DeclName())] = true
			}
		}
		for _, f := range a.Files {
			for _, d := range f.Decls {
				an = append(an, d.DeclName())
			}
		}
		shared := 0
		for _, f := range b.Files {
			for _, d := range f.Decls {
				if n := model.Pick(rng, an); rng.P(0.5) && !used[model.Hump(n)] {
					used[model.Hump(n)] = true
					rename(d, n)
					shared++
				}
			}
		}
		for _, s := range []*model.Schema{a, b} {
			if rng.P(0.3) {
				model.AddTags(rng, s)
			}
			if rng.P(0.7) {
				model.AddDomainTags(rng, s, model.DomainAny)
			}
		}
		sa, _ := marked(a, "", nil)
		sb, _ := marked(b, "", nil)
		dir := cli.Dir()
		defer cli.Drop(dir)
		cli.Write(dir+"/in", sa)
		cli.Write(dir+"/in", sb)
		all := map[string]string{}
		for _, m := range []map[string]string{sa, sb} {
			for k, v := range m {
				all[k] = v
			}
		}
		n := 0
		run := func(in string) (map[string]string, bool) {
			n++
			out := fmt.Sprintf("%s/out%d", dir, n)
			x := cli.Hbuf(bin, "", "-i", dir+"/"+in, "-o", out, "-t", t, "-p", "gen/")
			r.Count("runs", 1)
			if x.Code != 0 || x.Crashed() {
				r.Violation("rejected "+t, fmt.Sprintf("hbuf -i %s -t %s: exit status %d: %s", in, t, x.Code, x.Out), cli.Show(all))
				return nil, false
			}
			return cli.Tree(out), true
		}
		compare := func(key, what string, want, got map[string]string) {
			r.Count("trees compared", 1)
			r.Count("files compared", int64(len(got)))
			if df := cli.DiffTree(want, got); df != "" {
				r.Violation(key+" "+t, what+": "+df, "hbuf -t "+t+" -p gen/\n\n"+cli.Show(all))
			}
		}
		ta, ok1 := run("in/aa/*.hbuf")
		tb, ok2 := run("in/bb/*.hbuf")
		if !ok1 || !ok2 {
			return
		}
		r.Count("shared type names", int64(shared))
		union := map[string]string{}
		for _, m := range []map[string]string{ta, tb} {
			for k, v := range m {
				if _, ok := union[k]; ok {
					panic("two files write " + k)
				}
				union[k] = v
			}
		}
		together, ok := run("in/*.hbuf")
		if !ok {
			return
		}
		compare("together", "two sets that know nothing of each other, compiled together, against one by one", union, together)
		r.Case(cli.Hash(all, t), len(ta) > 0 && len(tb) > 0 && shared > 0)

		// one file and what it imports
		f := model.Pick(rng, a.Files)
		if one, ok := run("in/" + f.Path); ok {
			part := map[string]string{}
			for k, v := range ta {
				if belongs(k, t, closure(f)) {
					part[k] = v
				}
			}
			compare("alone", f.Path+" compiled alone against the whole set", part, one)
		}

		// a declaration that nobody refers to, in a file of the first set
		g := model.Pick(rng, a.Files)
		old := g.Decls
		o := docsOn
		o.Files, o.Mutual = 1, false
		extra := model.GenSchema(rng, o)
		names := map[string]bool{}
		for _, f := range a.Files {
			for _, d := range f.Decls {
				names[model.Hump(d.DeclName())] = true
			}
		}
		added := 0
		for _, d := range extra.Files[0].Decls {
			names2 := d.DeclName()
			for names[model.Hump(names2)] {
				names2 += "X"
			}
			rename(d, names2)
			names[model.Hump(names2)] = true
			switch x := d.(type) {
			case *model.Enum:
				x.File = g
			case *model.Data:
				x.File = g
			case *model.Server:
				x.File = g
			}
			insertDecl(rng, g, d)
			added++
		}
		sg, _ := marked(a, "", nil)
		g.Decls = old
		cli.Write(dir+"/more", sg)
		for k, v := range sg {
			all["more/"+k] = v
		}
		if more, ok := run("more/aa/*.hbuf"); ok {
			want, got := map[string]string{}, map[string]string{}
			for k, v := range ta {
				if !belongs(k, t, []*model.File{g}) {
					want[k] = v
				}
			}
			for k, v := range more {
				if !belongs(k, t, []*model.File{g}) {
					got[k] = v
				}
			}
			r.Count("declarations added", int64(added))
			compare("unreferenced", "after adding unreferenced declarations to "+path.Base(g.Path)+", the other files", want, got)
		}
		// an import that nobody uses, from the second set into the first
		h, e := model.Pick(rng, b.Files), model.Pick(rng, a.Files)
		seen, clash := map[string]bool{}, false
		for _, f := range append([]*model.File{e}, append(h.Imports, h)...) {
			for _, d := range f.Decls {
				clash = clash || seen[d.DeclName()]
				seen[d.DeclName()] = true
			}
		}
		if !clash {
			h.Imports = append(h.Imports, e)
			sh, _ := marked(b, "", nil)
			h.Imports = h.Imports[:len(h.Imports)-1]
			cli.Write(dir+"/used", sa)
			cli.Write(dir+"/used", sh)
			for k, v := range sh {
				all["used/"+k] = v
			}
			if got, ok := run("used/*.hbuf"); ok {
				r.Count("imports nobody uses", 1)
				compare("unused import", "after importing "+e.Path+" in "+h.Path+" without using it", union, got)
			}
		}
		if i < 2 {
			r.Sample(map[string]any{"target": t, "files": cli.Names(together), "shared names": shared})
		}
	})
	r.Finish()
}
