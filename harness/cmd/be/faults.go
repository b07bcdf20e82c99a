package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/harness/internal/cli"
	"verif/harness/internal/model"
	"verif/harness/internal/report"
)

func init() { checks["C37"] = c37 }

// fault is something that goes wrong at one place of a run. ENOENT is none: what has
// disappeared meanwhile may be passed over.
type fault struct {
	call string
	errs []string
}

var faults = []fault{
	{"write", []string{"ENOSPC", "EIO", "EDQUOT", "EFBIG", "EINTR"}},
	{"write", []string{"ENOSPC", "EIO", "EDQUOT", "EINTR"}},
	{"openat", []string{"EACCES", "EMFILE", "ENOSPC", "EROFS", "EIO", "EINTR"}},
	{"openat", []string{"EACCES", "EMFILE", "ENOSPC", "EIO"}},
	{"close", []string{"EIO", "ENOSPC", "EDQUOT"}},
	{"mkdirat", []string{"EACCES", "ENOSPC", "EROFS", "EIO"}},
	{"read", []string{"EIO", "EINTR", "EISDIR", "ESTALE"}},
	{"getdents64", []string{"EIO", "EACCES"}},
	{"newfstatat", []string{"EACCES", "EIO"}},
}

// c37 makes runs fail at one place each, or ends them there.
func c37() {
	r := report.New("C37", "a random valid schema set compiled undisturbed, then into a fresh or used directory while one of its system calls on a schema, a directory or an output file fails (injected by strace) or the process is killed at it, or while an output path is a full device, a directory, a file or a dangling link, or a schema is a link that leads nowhere, then undisturbed again; non-trivial: the fault took place")
	bin := cli.Build(r)
	dl := r.Budget(60*time.Second, 10*time.Minute)
	cli.Parallel(12, r.N(8000, 60000), dl, func(i int) {
		rng := model.NewRng(r.Seed*17_000_023 + int64(i))
		o := docsOn
		s := model.GenSchema(rng, o)
		if rng.P(0.7) {
			model.AddDomainTags(rng, s, model.DomainAny)
		}
		t := targets[i%4]
		src, _ := marked(s, "", nil)
		dir := cli.Dir()
		defer cli.Drop(dir)
		cli.Write(dir+"/in", src)
		pat := "*.hbuf"
		if rng.P(0.5) {
			pat, _ = pickInput(rng, s)
		}
		args := func(out string) []string {
			return []string{"-i", dir + "/in/" + pat, "-o", out, "-t", t, "-p", "gen/"}
		}
		show := fmt.Sprintf("hbuf -i 'in/%s' -o OUT -t %s -p gen/\n\n%s", pat, t, cli.Show(src))
		x := cli.Hbuf(bin, "", args(dir+"/base")...)
		base := cli.Tree(dir + "/base")
		if x.Code != 0 || x.Crashed() {
			r.Violation("rejected", fmt.Sprintf("exit status %d: %s", x.Code, x.Out), show)
			return
		}
		out := dir + "/out"
		names := cli.Names(base)
		used := rng.P(0.4)
		if used {
			// what an earlier run has left, of a version longer, shorter or as long
			m := map[string]string{}
			for _, n := range names {
				if base[n] != "" && rng.P(0.7) {
					switch b := base[n]; rng.Intn(4) {
					case 0:
						m[n] = b[:rng.Intn(len(b)+1)]
					case 1: // of the same size
						k := rng.Intn(len(b))
						m[n] = b[:k] + "~" + b[k+1:]
					default:
						m[n] = b + "\n// stale\n" + b
					}
				}
			}
			cli.Write(out, m)
		}
		what, log, trace := "", "", ""
		took, killed := false, false
		undo := func() {}
		unread, closing := false, false
		if i%10 == 3 && pat == "*.hbuf" {
			// a schema that cannot be read, also where nothing can be injected
			p := dir + "/in/" + model.Pick(rng, []string{"", "sub/", "sub/deep/", "zz/", "aa/"})
			os.MkdirAll(p, 0o755)
			p += model.Pick(rng, []string{"zz9.hbuf", "a0.hbuf"})
			if rng.P(0.5) {
				os.Symlink(dir+"/missing.hbuf", p)
				what = "a dangling link at " + p
			} else {
				os.Symlink(p, p)
				what = "a link to itself at " + p
			}
			took, unread = true, true
			undo = func() { os.Remove(p) }
			x = cli.Hbuf(bin, "", args(out)...)
		} else if i%5 == 4 && len(names) > 0 {
			p := filepath.Join(out, model.Pick(rng, names))
			os.MkdirAll(filepath.Dir(p), 0o755)
			os.Remove(p)
			switch k := rng.Intn(5); {
			case k == 0:
				os.Mkdir(p, 0o755)
				what = "a directory at " + p
			case k == 1:
				os.Symlink(dir+"/missing/x", p)
				what = "a dangling link at " + p
			case k == 2 && len(cli.Tree(filepath.Dir(p))) == 0:
				p = filepath.Dir(p)
				os.Remove(p)
				os.WriteFile(p, []byte("in the way"), 0o644)
				what = "a file in place of the directory " + p
			default:
				os.Symlink("/dev/full", p)
				what = "a full device at " + p
			}
			took = true
			undo = func() { os.Remove(p) }
			x = cli.Hbuf(bin, "", args(out)...)
		} else {
			f := model.Pick(rng, faults)
			paths := map[string]bool{out: true}
			up := func(p, top string) {
				for ; len(p) >= len(top); p = filepath.Dir(p) {
					paths[p] = true
				}
			}
			n := 0
			switch f.call {
			case "read", "getdents64":
				for p := range src {
					up(dir+"/in/"+p, dir+"/in")
				}
				n = len(src) * 2
			case "write", "mkdirat", "close":
				for _, p := range names {
					up(out+"/"+p, out)
				}
				n = len(names)
			default:
				for p := range src {
					up(dir+"/in/"+p, dir+"/in")
				}
				for _, p := range names {
					up(out+"/"+p, out)
				}
				n = len(names) + 2*len(src)
			}
			if f.call == "mkdirat" || f.call == "getdents64" {
				n = 2
			}
			how := "error=" + model.Pick(rng, f.errs)
			if rng.P(0.2) {
				how, killed = "signal=SIGKILL", true
			}
			closing = f.call == "close" && !killed
			when := strconv.Itoa(rng.Range(1, max(1, n)))
			if !killed && rng.P(0.15) {
				when += "+" // and ever after
				if strings.HasSuffix(how, "EINTR") {
					how = "error=EIO"
				}
			}
			what = fmt.Sprintf("%s: %s, number %s", f.call, how, when)
			log = os.TempDir() + "/fault" + strconv.Itoa(i)
			a := []string{"-f", "-qq", "-o", log, "-e", "trace=" + f.call, "-e", "inject=" + f.call + ":" + how + ":when=" + when}
			var ps []string
			for p := range paths {
				ps = append(ps, p)
			}
			sort.Strings(ps)
			for _, p := range ps {
				a = append(a, "-P", p)
			}
			x = cli.Exec(60*time.Second, "", nil, "strace", append(append(a, bin), args(out)...)...)
			b, _ := os.ReadFile(log)
			os.Remove(log)
			trace = string(b)
			took = strings.Contains(string(b), "(INJECTED)") || killed && strings.Contains(string(b), "killed by SIGKILL")
			if !killed && !took && !strings.Contains(string(b), "(") {
				r.Count("runs without such a call, or not traced", 1)
			}
			killed = killed && took
			if took {
				r.Seen("faults", f.call+" "+how)
			}
		}
		r.Case(cli.Hash(src, t, pat, what), took)
		if log == "" {
			r.Seen("faults", strings.SplitN(what, " at ", 2)[0])
		}
		undo()
		show = what + fmt.Sprintf(" (output used before: %v)\nexit %d %s\n", used, x.Code, x.Out) + trace + show
		switch {
		case killed:
			r.Count("runs killed", 1)
		case x.Crashed():
			r.Violation("crash", what+": the command crashed:\n"+x.Out, show)
		case x.Code == 0 && unread:
			r.Violation("success without a schema", what+": exit status 0", show)
		case x.Code == 0 && took && closing:
			// what was written may be lost, although it can be seen now
			r.Violation("success without a close", what+": exit status 0", show)
		case x.Code == 0:
			got := cli.Tree(out)
			r.Count("runs that succeeded all the same", 1)
			r.Count("files compared", int64(len(got)))
			for _, n := range names {
				if g, ok := got[n]; !ok {
					r.Violation("success without a file", fmt.Sprintf("%s: exit status 0, but %s is missing", what, n), show)
				} else if g != base[n] {
					r.Violation("success with another file", fmt.Sprintf("%s: exit status 0, but %s differs from that of an undisturbed run: %s", what, n, cli.DiffTree(map[string]string{n: base[n]}, map[string]string{n: g})), show)
				}
			}
		case took:
			r.Count("runs that failed", 1)
			if strings.TrimSpace(x.Out) == "" {
				r.Violation("silent failure", fmt.Sprintf("%s: exit status %d without a message", what, x.Code), show)
			}
		}
		// whatever was left behind, the next run makes up for it
		x = cli.Hbuf(bin, "", args(out)...)
		if x.Code != 0 {
			r.Violation("no recovery", fmt.Sprintf("after %s: the next run ends with exit status %d: %s", what, x.Code, x.Out), show)
			return
		}
		got := cli.Tree(out)
		r.Count("runs repeated", 1)
		for _, n := range names {
			if got[n] != base[n] {
				r.Violation("not made up for", fmt.Sprintf("after %s: the next run leaves another %s than an undisturbed one: %s", what, n, cli.DiffTree(map[string]string{n: base[n]}, map[string]string{n: got[n]})), show)
			}
		}
		if i < 3 {
			r.Sample(map[string]any{"target": t, "fault": what, "outputs": names})
		}
	})
	r.Finish()
}
