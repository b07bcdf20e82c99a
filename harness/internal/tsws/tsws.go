// Package tsws compiles generated TypeScript of many schemas with a strict
// compiler and performs operations in it.
package tsws

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/harness/internal/cli"
	"verif/harness/internal/model"
	"verif/harness/internal/report"
)

// Case is one schema in a batch.
type Case struct {
	N     int
	S     *model.Schema
	Src   map[string]string
	Err   string // what the command or the TypeScript compiler had against it
	Stage string // "generate" or "compile"
	Files map[string]string
}

// Batch is a TypeScript project that holds the generated code of several schemas.
type Batch struct {
	Dir   string
	Bin   string
	Cases []*Case
	r     *report.Run
}

func New(r *report.Run, bin string) *Batch { return &Batch{Dir: cli.Dir(), Bin: bin, r: r} }

func (b *Batch) Drop() { cli.Drop(b.Dir) }

func (b *Batch) Add(s *model.Schema, src map[string]string) *Case {
	c := &Case{N: len(b.Cases), S: s, Src: src}
	b.Cases = append(b.Cases, c)
	if len(b.Cases) == 1 {
		b.r.Sample(map[string]any{"schemas": c.Src})
	}
	return c
}

func (c *Case) name(f *model.File, n string) string {
	return fmt.Sprintf("s%d/%s.%s", c.N, f.Base(), model.Hump(n))
}
func (c *Case) Data(d *model.Data) string     { return c.name(d.File, d.Name) }
func (c *Case) Enum(e *model.Enum) string     { return c.name(e.File, e.Name) }
func (c *Case) Server(s *model.Server) string { return c.name(s.File, s.Name) }

// Mod is the module of f's output of a kind: data, enum, server, verify, lang or ui.
func (c *Case) Mod(f *model.File, kind string) string {
	return fmt.Sprintf("s%d/%s.%s", c.N, f.Base(), kind)
}

// Replay describes a case for a replay file.
func (c *Case) Replay(what string) string {
	return fmt.Sprintf("hbuf -i 'in/*.hbuf' -o out -t ts\n%s\n\n%s", what, cli.Show(c.Src))
}

func (b *Batch) fatal(what string, err error, out []byte) {
	fmt.Fprintf(os.Stderr, "harness error: %s: %v\n%s\n", what, err, out)
	os.Exit(2)
}

const nodePath = "/opt/veriftools/node/node_modules"

const tsconfig = `{"compilerOptions": {"target": "es2020", "module": "commonjs", "moduleResolution": "node10", "strict": true, "esModuleInterop": true,
"jsx": "react", "jsxFactory": "_vh", "jsxFragmentFactory": "_vf", "outDir": "js", "rootDir": "src", "types": [], "lib": ["es2020"], "ignoreDeprecations": "5.0"%s},
"include": [%s]}`

var errLine = regexp.MustCompile(`^src/(?:g/)?s(\d+)[/.](\S*?)\(\d+,\d+\): error (TS\d+): (.*)`)

// Compile generates and compiles everything.
func (b *Batch) Compile() {
	cli.Parallel(8, len(b.Cases), time.Now().Add(time.Hour), func(i int) {
		c := b.Cases[i]
		in := filepath.Join(b.Dir, "in", fmt.Sprint(c.N))
		cli.Write(in, c.Src)
		out := filepath.Join(b.Dir, "src", fmt.Sprintf("s%d", c.N))
		x := cli.Gen(b.Bin, in+"/*.hbuf", out, "ts", "")
		if x.Code != 0 || x.Crashed() {
			c.Err, c.Stage = fmt.Sprintf("exit status %d: %s", x.Code, x.Out), "generate"
			return
		}
		c.Files = cli.Tree(out)
	})
	for n, t := range cli.Tree(filepath.Join(b.r.Root, "shim", "ts", "modules")) {
		cli.Write(b.Dir, map[string]string{"node_modules/" + n: t})
	}
	drv, err := os.ReadFile(filepath.Join(b.r.Root, "shim", "ts", "driver.js"))
	if err != nil {
		b.fatal("driver", err, nil)
	}
	cli.Write(b.Dir, map[string]string{"driver.js": string(drv)})
	const parts = 4
	var wg sync.WaitGroup
	outs := make([][]byte, parts)
	errs := make([]error, parts)
	for p := 0; p < parts; p++ {
		var inc []string
		for i := p; i < len(b.Cases); i += parts {
			c := b.Cases[i]
			if c.Err == "" {
				cli.Write(b.Dir, map[string]string{fmt.Sprintf("src/g/s%d.ts", c.N): c.glue()})
				inc = append(inc, fmt.Sprintf(`"src/s%d/**/*", "src/g/s%d.ts"`, c.N, c.N))
			}
		}
		if len(inc) == 0 {
			continue
		}
		cli.Write(b.Dir, map[string]string{fmt.Sprintf("tsconfig%d.json", p): fmt.Sprintf(tsconfig, "", strings.Join(inc, ", "))})
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command("node", nodePath+"/typescript/bin/tsc", "-p", fmt.Sprintf("tsconfig%d.json", p), "--pretty", "false")
			cmd.Dir = b.Dir
			outs[p], errs[p] = cmd.CombinedOutput()
		}()
	}
	wg.Wait()
	for p := range outs {
		if errs[p] == nil {
			continue
		}
		n := 0
		for _, l := range strings.Split(string(outs[p]), "\n") {
			m := errLine.FindStringSubmatch(l)
			if m == nil {
				continue
			}
			i, _ := strconv.Atoi(m[1])
			c := b.Cases[i]
			n++
			c.Stage = "compile"
			if len(c.Err) < 3000 {
				c.Err += l + "\n"
			}
		}
		if n == 0 {
			b.fatal("tsc", errs[p], outs[p])
		}
	}
}

// Good lists the cases that compiled.
func (b *Batch) Good() (out []*Case) {
	for _, c := range b.Cases {
		if c.Err == "" {
			out = append(out, c)
		}
	}
	return
}

var ident = regexp.MustCompile(`'[^']*'|"[^"]*"`)

// Report reports every case that did not compile as a violation.
func (b *Batch) Report() {
	for _, c := range b.Cases {
		if c.Err == "" {
			continue
		}
		l := strings.SplitN(c.Err, "\n", 2)[0]
		if m := errLine.FindStringSubmatch(l); m != nil {
			kind := m[2]
			if i := strings.Index(kind, "."); i >= 0 {
				kind = kind[i+1:]
			}
			l = kind + "-" + m[3] + "-" + ident.ReplaceAllString(m[4], "_")
		}
		if len(l) > 70 {
			l = l[:70]
		}
		b.r.Violation("ts-"+c.Stage+"-"+l, "the TypeScript of a valid schema set does not "+c.Stage+":\n"+c.Err, c.Replay(""))
	}
}

var baseTS = map[string]string{
	model.Int8: "number", model.Int16: "number", model.Int32: "number", model.Uint8: "number", model.Uint16: "number", model.Uint32: "number",
	model.Int64: "Long", model.Uint64: "Long", model.Bool: "boolean", model.Float: "number", model.Double: "number", model.String: "string",
	model.Date: "Date", model.Decimal: "Decimal",
}

// glue states in types what the generated code has to offer.
func (c *Case) glue() string {
	var b, imp strings.Builder
	mods := map[string]string{}
	q := func(f *model.File, kind, n string) string {
		m := f.Base() + "." + kind
		a, ok := mods[m]
		if !ok {
			a = fmt.Sprintf("m%d", len(mods))
			mods[m] = a
			fmt.Fprintf(&imp, "import * as %s from \"../s%d/%s\"\n", a, c.N, m)
		}
		return a + "." + model.Hump(n)
	}
	ref := func(x model.Ref) string {
		s := baseTS[x.Base]
		switch x.Kind {
		case model.KEnum:
			s = q(x.Enum.File, "enum", x.Enum.Name)
		case model.KData:
			s = q(x.Data.File, "data", x.Data.Name)
		}
		if x.Null {
			s += " | null"
		}
		return s
	}
	imp.WriteString("import Long from \"long\"\nimport {Decimal} from \"decimal.js\"\nimport * as h from \"hbuf_ts\"\n")
	b.WriteString("type Eq<A, B> = (<T>() => T extends A ? 1 : 2) extends (<T>() => T extends B ? 1 : 2) ? true : false\n")
	b.WriteString("type Members<T> = {[K in keyof T]: T[K] extends Function ? never : K}[keyof T]\n")
	b.WriteString("type Methods<T> = {[K in keyof T]: T[K] extends Function ? K : never}[keyof T]\n")
	b.WriteString("export type _Used = [Long, Decimal, h.Data]\n")
	n := 0
	say := func(f string, a ...any) {
		n++
		fmt.Fprintf(&b, "export const _%d", n)
		fmt.Fprintf(&b, f+"\n", a...)
	}
	for _, f := range c.S.Files {
		for _, decl := range f.Decls {
			switch x := decl.(type) {
			case *model.Data:
				t := q(f, "data", x.Name)
				var names []string
				for _, fl := range x.AllFields() {
					ty := ref(fl.Type.Elem)
					switch fl.Type.Cont {
					case model.Array:
						ty = "(" + ty + ")[]"
					case model.Map:
						k := fl.Type.Key
						kt := "number"
						if k.Kind == model.KBase {
							switch k.Base {
							case model.Int64, model.Uint64, model.Decimal, model.String, model.Bool:
								kt = "string"
							}
						}
						ty = "Record<" + kt + ", " + ty + ">"
					}
					if fl.Type.Cont != model.None && fl.Type.ContNull {
						ty += " | null"
					}
					names = append(names, strconv.Quote(model.Lower(fl.Name)))
					say(": Eq<%s[%q], %s> = true", t, model.Lower(fl.Name), ty)
				}
				sort.Strings(names)
				all := strings.Join(names, " | ")
				if all == "" {
					all = "never"
				}
				say(": Eq<Members<%s>, %s> = true", t, all)
				say(": h.Data = new %s()", t)
				say(" = (): %s => %s.fromJson({}).clone()", t, t)
				for _, e := range x.Ancestors() {
					say(" = (v: %s): %s => v", t, q(e.File, "data", e.Name))
				}
			case *model.Enum:
				t := q(f, "enum", x.Name)
				for _, it := range x.Items {
					say(": %s = %s.%s", t, t, model.AllUpper(it.Name))
				}
				say(": %s[] = %s.values", t, t)
				say(" = (v: %s): [number, string] => [v.value, v.name]", t)
			case *model.Server:
				t := q(f, "server", x.Name)
				var names []string
				for _, m := range x.AllMethods() {
					ret := "void"
					if m.Result != nil {
						ret = q(m.Result.File, "data", m.Result.Name)
					}
					names = append(names, strconv.Quote(model.Lower(m.Name)))
					say(": Eq<%s[%q], (p: %s, ctx?: h.Context) => Promise<%s>> = true", t, model.Lower(m.Name), q(m.Param.File, "data", m.Param.Name), ret)
				}
				sort.Strings(names)
				all := strings.Join(names, " | ")
				if all == "" {
					all = "never"
				}
				say(": Eq<keyof %s, %s> = true", t, all)
				say(" = (c: h.Client): %s => new %sClient(c)", t, t)
				say(" = (s: %s): h.ServerRouter => new %sRouter(s)", t, t)
				for _, e := range x.Extends {
					say(" = (v: %s): %s => v", t, q(e.Server.File, "server", e.Server.Name))
				}
			}
		}
	}
	return imp.String() + b.String()
}

// TypeDesc describes a member type to the driver.
func (c *Case) TypeDesc(t model.Type) map[string]any {
	x := t.Elem
	o := map[string]any{"k": x.Base, "null": x.Null, "c": "", "cnull": t.ContNull}
	switch x.Kind {
	case model.KEnum:
		o["k"], o["n"] = "enum", c.Enum(x.Enum)
	case model.KData:
		o["k"], o["n"] = "data", c.Data(x.Data)
	}
	switch t.Cont {
	case model.Array:
		o["c"] = "list"
	case model.Map:
		o["c"] = "map"
	}
	return o
}

func (c *Case) describe() map[string]any {
	ds, es, ss := []any{}, []any{}, []any{}
	for _, d := range c.S.Datas() {
		fs := []any{}
		for _, f := range d.AllFields() {
			fs = append(fs, map[string]any{"name": f.Name, "ts": model.Lower(f.Name), "t": c.TypeDesc(f.Type)})
		}
		ds = append(ds, map[string]any{"n": c.Data(d), "mod": c.Mod(d.File, "data"), "cls": model.Hump(d.Name), "fields": fs})
	}
	for _, e := range c.S.Enums() {
		es = append(es, map[string]any{"n": c.Enum(e), "mod": c.Mod(e.File, "enum"), "cls": model.Hump(e.Name)})
	}
	for _, s := range c.S.Servers() {
		ms := []any{}
		for _, m := range s.AllMethods() {
			o := map[string]any{"name": m.Name, "ts": model.Lower(m.Name), "param": c.Data(m.Param), "result": nil}
			if m.Result != nil {
				o["result"] = c.Data(m.Result)
			}
			ms = append(ms, o)
		}
		ss = append(ss, map[string]any{"n": c.Server(s), "mod": c.Mod(s.File, "server"), "cls": model.Hump(s.Name), "methods": ms})
	}
	return map[string]any{"data": ds, "enums": es, "servers": ss}
}

// Op is one operation of the driver.
type Op = map[string]any

// Run performs the operations. One that was not answered has a nil result.
func (b *Batch) Run(ops []Op) []map[string]any {
	var desc []any
	for _, c := range b.Good() {
		desc = append(desc, c.describe())
	}
	head, err := json.Marshal(desc)
	if err != nil {
		b.fatal("description", err, nil)
	}
	const procs = 4
	out := make([]map[string]any, len(ops))
	var wg sync.WaitGroup
	for p := 0; p < procs; p++ {
		lo, hi := len(ops)*p/procs, len(ops)*(p+1)/procs
		if lo == hi {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			b.run(head, ops[lo:hi], out[lo:hi])
		}()
	}
	wg.Wait()
	return out
}

func (b *Batch) run(head []byte, ops []Op, out []map[string]any) {
	for len(ops) > 0 {
		var in, buf, errb bytes.Buffer
		in.Write(head)
		in.WriteByte('\n')
		enc := json.NewEncoder(&in)
		for _, o := range ops {
			if err := enc.Encode(o); err != nil {
				b.fatal("encoding an operation", err, nil)
			}
		}
		cmd := exec.Command("node", "driver.js")
		cmd.Dir = b.Dir
		cmd.Stdin, cmd.Stdout, cmd.Stderr = &in, &buf, &errb
		if err := cmd.Start(); err != nil {
			b.fatal("driver", err, nil)
		}
		t := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
		err := cmd.Wait()
		t.Stop()
		dec := json.NewDecoder(&buf)
		dec.UseNumber()
		n := 0
		for n < len(ops) {
			var v map[string]any
			if dec.Decode(&v) != nil {
				break
			}
			out[n] = v
			n++
		}
		if n == len(ops) {
			return
		}
		e := errb.String()
		if len(e) > 1500 {
			e = e[:1500]
		}
		out[n] = map[string]any{"panic": fmt.Sprintf("the process ended: %v\n%s", err, e)}
		ops, out = ops[n+1:], out[n+1:]
	}
}
