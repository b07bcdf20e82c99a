// Package gows compiles generated Go code of many schemas together with a
// driver and performs operations in it.
package gows

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/harness/internal/cli"
	"verif/harness/internal/model"
	"verif/harness/internal/report"
)

// Case is one schema in a batch.
type Case struct {
	N     int
	S     *model.Schema
	Src   map[string]string
	Err   string   // what the command or the Go compiler had against it
	Stage string   // "generate" or "compile"
	Pkgs  []string // Go packages with output
}

// Batch is a Go module that holds the generated code of several schemas.
type Batch struct {
	Dir   string
	Bin   string // the hbuf command
	Cases []*Case
	Race  bool // build the driver with the race detector
	r     *report.Run
	drv   string
	mu    sync.Mutex
	races []string
}

func New(r *report.Run, bin string) *Batch { return &Batch{Dir: cli.Dir(), Bin: bin, r: r} }

func (b *Batch) Drop() { cli.Drop(b.Dir) }

// Add puts a schema into the batch. Every file needs a Go package.
func (b *Batch) Add(s *model.Schema, src map[string]string) *Case {
	c := &Case{N: len(b.Cases), S: s, Src: src}
	b.Cases = append(b.Cases, c)
	if len(b.Cases) == 1 {
		b.r.Sample(map[string]any{"schemas": c.Src})
	}
	return c
}

// PkgDir is the directory of a Go package name.
func PkgDir(p string) string { return strings.ReplaceAll(p, ".", "/") }

// PkgName is the name in the package clause.
func PkgName(p string) string { return p[strings.LastIndex(p, ".")+1:] }

// Type names a declaration to the driver.
func (c *Case) Type(f *model.File, name string) string {
	return fmt.Sprintf("s%d/%s.%s", c.N, PkgDir(f.GoPkg), model.Hump(name))
}

func (c *Case) Data(d *model.Data) string     { return c.Type(d.File, d.Name) }
func (c *Case) Enum(e *model.Enum) string     { return c.Type(e.File, e.Name) }
func (c *Case) Server(s *model.Server) string { return c.Type(s.File, s.Name) }

// Replay describes a case for a replay file.
func (c *Case) Replay(what string) string {
	return fmt.Sprintf("hbuf -i 'in/*.hbuf' -o out -t go -p gen/p/s%d/\n%s\n\n%s", c.N, what, cli.Show(c.Src))
}

// Generate runs the command on every schema.
func (b *Batch) Generate() {
	cli.Parallel(8, len(b.Cases), time.Now().Add(time.Hour), func(i int) {
		c := b.Cases[i]
		in := filepath.Join(b.Dir, "in", fmt.Sprint(c.N))
		cli.Write(in, c.Src)
		out := filepath.Join(b.Dir, "p", fmt.Sprintf("s%d", c.N))
		x := cli.Gen(b.Bin, in+"/*.hbuf", out, "go", fmt.Sprintf("gen/p/s%d/", c.N))
		if x.Code != 0 || x.Crashed() {
			c.Err, c.Stage = fmt.Sprintf("exit status %d: %s", x.Code, x.Out), "generate"
			return
		}
		seen := map[string]bool{}
		for _, f := range c.S.Files {
			if len(f.Decls) > 0 && !seen[f.GoPkg] {
				seen[f.GoPkg] = true
				c.Pkgs = append(c.Pkgs, f.GoPkg)
			}
		}
	})
}

const goMod = `module gen

go 1.21

require (
	github.com/shopspring/decimal v1.4.0
	github.com/wskfjtheqian/hbuf_golang v1.0.12
)

replace github.com/wskfjtheqian/hbuf_golang => %s
`
const goSum = `github.com/shopspring/decimal v1.4.0 h1:bxl37RwXBklmTi0C79JfXCEBD1cqqHt0bbgBAGFp81k=
github.com/shopspring/decimal v1.4.0/go.mod h1:gawqmDU56v4yIKSwfBSFip1HdCCXN8/+DMd9qYNcwME=
`

func (b *Batch) fatal(what string, err error, out []byte) {
	fmt.Fprintf(os.Stderr, "harness error: %s: %v\n%s\n", what, err, out)
	os.Exit(2)
}

func (b *Batch) write(name, text string) { cli.Write(b.Dir, map[string]string{name: text}) }

var errLine = regexp.MustCompile(`^(?:\./)?([pg])/s(\d+)/(\S+?):\d+`)
var errPkg = regexp.MustCompile(`\bgen/([pg])/s(\d+)\b`)

// Compile generates, compiles everything and builds the driver from the schemas that compile.
func (b *Batch) Compile() {
	b.Generate()
	b.write("go.mod", fmt.Sprintf(goMod, filepath.Join(b.r.Root, "shim", "hbuf_golang")))
	b.write("go.sum", goSum)
	for n, t := range cli.Tree(filepath.Join(b.r.Root, "shim", "rt")) {
		b.write("rt/"+n, t)
	}
	for _, c := range b.Cases {
		if c.Err == "" {
			b.write(fmt.Sprintf("g/s%d/glue.go", c.N), c.glue())
		}
	}
	for try := 0; ; try++ {
		var pats []string
		main := "package main\n\nimport (\n\t\"gen/rt\"\n"
		for _, c := range b.Cases {
			if c.Err == "" {
				pats = append(pats, fmt.Sprintf("./p/s%d/...", c.N), fmt.Sprintf("./g/s%d", c.N))
				main += fmt.Sprintf("\t_ \"gen/g/s%d\"\n", c.N)
			}
		}
		main += ")\n\nfunc main() { rt.Main() }\n"
		b.write("main.go", main)
		if len(pats) == 0 {
			return
		}
		cmd := exec.Command("go", append([]string{"build", "-gcflags=gen/...=-e"}, pats...)...)
		cmd.Dir = b.Dir
		out, err := cmd.CombinedOutput()
		if err == nil {
			break
		}
		n := 0
		for _, l := range strings.Split(string(out), "\n") {
			m := errLine.FindStringSubmatch(l)
			if m == nil {
				m = errPkg.FindStringSubmatch(l)
			}
			if m == nil || strings.HasPrefix(l, "#") {
				continue
			}
			i, _ := strconv.Atoi(m[2])
			c := b.Cases[i]
			if c.Err == "" {
				n++
				c.Stage = "compile"
			}
			if len(c.Err) < 3000 {
				c.Err += l + "\n"
			}
		}
		if n == 0 || try > 3 {
			b.fatal("go build", err, out)
		}
	}
	b.drv = filepath.Join(b.Dir, "driver")
	args := []string{"build", "-gcflags=gen/...=-e", "-o", b.drv}
	if b.Race {
		args = append(args, "-race")
	}
	cmd := exec.Command("go", append(args, ".")...)
	cmd.Dir = b.Dir
	if out, err := cmd.CombinedOutput(); err != nil {
		b.fatal("go build driver", err, out)
	}
}

// Good lists the cases that compiled.
func (b *Batch) Good() (out []*Case) {
	for _, c := range b.Cases {
		if c.Err == "" {
			out = append(out, c)
		}
	}
	return
}

// Report reports every case that did not compile as a violation.
func (b *Batch) Report() {
	for _, c := range b.Cases {
		if c.Err != "" {
			b.r.Violation("go-"+c.Stage+"-"+classify(c.Err), "the Go code of a valid schema set does not "+c.Stage+":\n"+c.Err, c.Replay(""))
		}
	}
}

var ident = regexp.MustCompile(`("[^"]*"|\b[A-Za-z_]\w*\.\w+\b|\b\w*[A-Z0-9]\w*\b|\d+)`)

// classify gives similar compiler messages the same key.
func classify(e string) string {
	l := strings.SplitN(e, "\n", 2)[0]
	if i := strings.Index(l, ": "); i >= 0 {
		l = l[i+2:]
	}
	l = ident.ReplaceAllString(l, "_")
	if len(l) > 80 {
		l = l[:80]
	}
	return l
}

// glue registers the types of a schema with the driver.
func (c *Case) glue() string {
	var b strings.Builder
	fmt.Fprintf(&b, "package s%d\n\nimport (\n\t\"context\"\n\t\"gen/rt\"\n\t\"github.com/wskfjtheqian/hbuf_golang/pkg/rpc\"\n", c.N)
	alias := map[string]string{}
	for i, p := range c.Pkgs {
		alias[p] = fmt.Sprintf("k%d", i)
		fmt.Fprintf(&b, "\tk%d \"gen/p/s%d/%s\"\n", i, c.N, PkgDir(p))
	}
	b.WriteString(")\n\nvar _ context.Context\nvar _ rpc.Init\n\n")
	q := func(f *model.File, name string) string { return alias[f.GoPkg] + "." + model.Hump(name) }
	var reg strings.Builder
	for _, f := range c.S.Files {
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *model.Data:
				t := q(f, x.Name)
				fmt.Fprintf(&reg, "\trt.Data[%q] = func() any { return new(%s) }\n", c.Data(x), t)
				for _, e := range x.Extends {
					fmt.Fprintf(&b, "var _ = func(c *%s) *%s { return &c.%s }\n", t, q(e.Data.File, e.Data.Name), model.Hump(e.Data.Name))
				}
			case *model.Enum:
				t := q(f, x.Name)
				fmt.Fprintf(&reg, "\trt.Enums[%q] = &rt.EnumInfo{Consts: map[string]int{", c.Enum(x))
				for _, it := range x.Items {
					fmt.Fprintf(&reg, "%q: int(%s%s), ", it.Name, t, model.Hump(it.Name))
				}
				fmt.Fprintf(&reg, "}, ToName: func(v int) string { return %s(v).ToName() }, Pointer: func(v int) int { return int(*%s(v).Pointer()) }, Values: func() map[string]int { m := map[string]int{}; for k, v := range %sValues() { m[k] = int(v) }; return m }}\n", t, t, t)
			case *model.Server:
				t := q(f, x.Name)
				st := fmt.Sprintf("stub%s_%s", alias[f.GoPkg], model.Hump(x.Name))
				fmt.Fprintf(&b, "type %s struct{ rec *rt.Rec }\n\nfunc (s *%s) Init(ctx context.Context) {}\n", st, st)
				for _, m := range x.AllMethods() {
					p := q(m.Param.File, m.Param.Name)
					n := model.Hump(m.Name)
					if m.Result == nil {
						fmt.Fprintf(&b, "func (s *%s) %s(ctx context.Context, p *%s) error { return s.rec.Call(ctx, %q, p, nil) }\n", st, n, p, n)
					} else {
						r := q(m.Result.File, m.Result.Name)
						fmt.Fprintf(&b, "func (s *%s) %s(ctx context.Context, p *%s) (*%s, error) { r := &%s{}; if err := s.rec.Call(ctx, %q, p, r); err != nil { return nil, err }; return r, nil }\n", st, n, p, r, r, n)
					}
				}
				for _, e := range x.Extends {
					fmt.Fprintf(&b, "var _ = func(c %s) %s { return c }\n", t, q(e.Server.File, e.Server.Name))
				}
				k := alias[f.GoPkg]
				h := model.Hump(x.Name)
				fmt.Fprintf(&b, "var _ %s = (*%sClient)(nil)\nvar _ %s = (*%s.Default%s)(nil)\n", t, t, t, k, h)
				fmt.Fprintf(&reg, "\trt.Servers[%q] = &rt.ServerInfo{NewClient: func(c rpc.Client) any { return %s.New%sClient(c) }, NewRouter: func(r *rt.Rec) rpc.ServerRouter { return %s.New%sRouter(&%s{r}) }, Default: func() any { return &%s.Default%s{} }, Get: func(ctx context.Context) any { return %s.Get%s(ctx) }, NotFound: any(%s.NotFound%s)}\n",
					c.Server(x), k, h, k, h, st, k, h, k, h, k, h)
			}
		}
	}
	b.WriteString("\nfunc init() {\n" + reg.String() + "}\n")
	return b.String()
}

// Op is one operation of the driver.
type Op struct {
	Op    string
	T     string            `json:",omitempty"`
	V     any               `json:",omitempty"`
	X     any               `json:",omitempty"`
	M     string            `json:",omitempty"`
	Text  string            `json:",omitempty"`
	Texts []string          `json:",omitempty"`
	Nums  []int             `json:",omitempty"`
	Err   string            `json:",omitempty"`
	Seq   []*Op             `json:",omitempty"`
	Opt   map[string]string `json:",omitempty"`
}

// Res is what the driver observed.
type Res = map[string]any

// Run performs the operations. An operation the driver did not answer has a nil result.
func (b *Batch) Run(ops []*Op) []any {
	if b.drv == "" {
		return make([]any, len(ops))
	}
	const procs = 4
	out := make([]any, len(ops))
	var wg sync.WaitGroup
	for p := 0; p < procs; p++ {
		lo, hi := len(ops)*p/procs, len(ops)*(p+1)/procs
		if lo == hi {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			b.run(ops[lo:hi], out[lo:hi])
		}()
	}
	wg.Wait()
	return out
}

func (b *Batch) run(ops []*Op, out []any) {
	for len(ops) > 0 {
		var in bytes.Buffer
		enc := json.NewEncoder(&in)
		for _, o := range ops {
			if err := enc.Encode(o); err != nil {
				b.fatal("encoding an operation", err, nil)
			}
		}
		cmd := exec.Command(b.drv)
		cmd.Dir = b.Dir
		cmd.Stdin = &in
		if b.Race {
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=5 log_path="+filepath.Join(b.Dir, "race"))
		}
		var buf, errb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &buf, &errb
		if err := cmd.Start(); err != nil {
			b.fatal("driver", err, nil)
		}
		t := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
		err := cmd.Wait()
		t.Stop()
		if text, e := os.ReadFile(filepath.Join(b.Dir, fmt.Sprintf("race.%d", cmd.Process.Pid))); e == nil {
			b.mu.Lock()
			b.races = append(b.races, strings.Split(string(text), "==================\n")...)
			b.mu.Unlock()
		}
		dec := json.NewDecoder(&buf)
		dec.UseNumber()
		n := 0
		for n < len(ops) {
			var v any
			if dec.Decode(&v) != nil {
				break
			}
			out[n] = v
			n++
		}
		if n == len(ops) {
			return
		}
		// the process died in operation n: go on after it
		e := errb.String()
		if len(e) > 1500 {
			e = e[:1500]
		}
		out[n] = Res{"panic": fmt.Sprintf("the process ended: %v\n%s", err, e)}
		ops, out = ops[n+1:], out[n+1:]
	}
}

// Race is a report of the race detector.
type Race struct {
	C    *Case // whose code takes part
	Text string
}

var raceCase = regexp.MustCompile(`/p/s(\d+)/`)

// Races are the reports so far.
func (b *Batch) Races() (out []Race) {
	for _, t := range b.races {
		if !strings.Contains(t, "WARNING: DATA RACE") {
			continue
		}
		x := Race{Text: strings.ReplaceAll(t, b.Dir, "")}
		if m := raceCase.FindStringSubmatch(t); m != nil {
			n, _ := strconv.Atoi(m[1])
			x.C = b.Cases[n]
		}
		out = append(out, x)
	}
	return
}

// ToGo renames the members of a value of d to their Go names.
func ToGo(d *model.Data, v model.Obj) model.Obj {
	out := model.Obj{}
	for _, f := range d.AllFields() {
		if x, ok := v[f.Name]; ok {
			out[model.Hump(f.Name)] = TypeToGo(f.Type, x)
		}
	}
	return out
}

// TypeToGo does the same for a value of a member type.
func TypeToGo(t model.Type, v any) any { return mapType(t, v, ToGo) }

func mapRef(r model.Ref, v any, f func(*model.Data, model.Obj) model.Obj) any {
	if o, ok := v.(map[string]any); ok && r.Kind == model.KData {
		return f(r.Data, o)
	}
	return v
}

func mapType(t model.Type, v any, f func(*model.Data, model.Obj) model.Obj) any {
	l, ok := v.([]any)
	if !ok {
		return mapRef(t.Elem, v, f)
	}
	out := model.List{}
	for _, e := range l {
		if t.Cont == model.Map {
			p, ok := e.([]any)
			if !ok || len(p) != 2 {
				out = append(out, e)
				continue
			}
			out = append(out, model.List{p[0], mapRef(t.Elem, p[1], f)})
		} else {
			out = append(out, mapRef(t.Elem, e, f))
		}
	}
	return out
}

// FromGo is the inverse of ToGo; members with an unknown name are kept as they are.
func FromGo(d *model.Data, v model.Obj) model.Obj {
	if v == nil {
		return nil
	}
	out := model.Obj{}
	known := map[string]bool{}
	for _, f := range d.AllFields() {
		h := model.Hump(f.Name)
		known[h] = true
		if x, ok := v[h]; ok {
			out[f.Name] = TypeFromGo(f.Type, x)
		}
	}
	for k, x := range v {
		if !known[k] {
			out["?"+k] = x
		}
	}
	return out
}

func TypeFromGo(t model.Type, v any) any { return mapType(t, v, FromGo) }

var _ = path.Base
