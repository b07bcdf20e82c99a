// Package javaws compiles generated Java of many schemas and performs
// operations in it.
package javaws

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/harness/internal/cli"
	"verif/harness/internal/model"
	"verif/harness/internal/report"
)

// Case is one schema in a batch.
type Case struct {
	N     int
	S     *model.Schema
	Src   map[string]string
	Err   string // what the command or the Java compiler had against it
	Stage string // "generate" or "compile"
	Files map[string]string
}

// Batch is a Java project that holds the generated code of several schemas.
type Batch struct {
	Dir   string
	Bin   string
	Cases []*Case
	r     *report.Run
}

func New(r *report.Run, bin string) *Batch { return &Batch{Dir: cli.Dir(), Bin: bin, r: r} }

func (b *Batch) Drop() { cli.Drop(b.Dir) }

// Add adds a schema: its Java packages come to lie below one of its own.
func (b *Batch) Add(s *model.Schema, rng *model.Rng) *Case {
	c := &Case{N: len(b.Cases), S: s}
	for _, f := range s.Files {
		if f.JavaPkg != "" {
			f.JavaPkg = fmt.Sprintf("s%d.%s", c.N, f.JavaPkg)
		}
	}
	c.Src = s.Sources(rng)
	b.Cases = append(b.Cases, c)
	if len(b.Cases) == 1 {
		b.r.Sample(map[string]any{"schemas": c.Src})
	}
	return c
}

// Outer is the interface a file's declarations of a kind (Data, Enum, Server) are nested in.
func Outer(f *model.File, kind string) string { return f.JavaPkg + "." + model.Hump(f.Base()) + kind }

func (c *Case) Data(d *model.Data) string { return Outer(d.File, "Data") + "$" + model.Hump(d.Name) }
func (c *Case) Enum(e *model.Enum) string { return Outer(e.File, "Enum") + "$" + model.Hump(e.Name) }
func (c *Case) Server(s *model.Server) string {
	return Outer(s.File, "Server") + "$" + model.Hump(s.Name)
}

// Replay describes a case for a replay file.
func (c *Case) Replay(what string) string {
	return fmt.Sprintf("hbuf -i 'in/*.hbuf' -o out -t java\n%s\n\n%s", what, cli.Show(c.Src))
}

func (b *Batch) fatal(what string, err error, out []byte) {
	fmt.Fprintf(os.Stderr, "harness error: %s: %v\n%s\n", what, err, out)
	os.Exit(2)
}

var errLine = regexp.MustCompile(`^(?:.*/)?src/s(\d+)/(\S*?):(\d+): error: (.*)`)

// Compile generates and compiles everything.
func (b *Batch) Compile() {
	cli.Parallel(8, len(b.Cases), time.Now().Add(time.Hour), func(i int) {
		c := b.Cases[i]
		in := filepath.Join(b.Dir, "in", fmt.Sprint(c.N))
		cli.Write(in, c.Src)
		out := filepath.Join(b.Dir, "src", fmt.Sprintf("s%d", c.N))
		x := cli.Gen(b.Bin, in+"/*.hbuf", out, "java", "")
		if x.Code != 0 || x.Crashed() {
			c.Err, c.Stage = fmt.Sprintf("exit status %d: %s", x.Code, x.Out), "generate"
			return
		}
		c.Files = cli.Tree(out)
		cli.Write(out, map[string]string{"VerifGlue.java": c.glue()})
	})
	for n, t := range cli.Tree(filepath.Join(b.r.Root, "shim", "java")) {
		cli.Write(b.Dir, map[string]string{"rt/" + n: t})
	}
	b.javac(b.Cases, nil)
	// a class file is only written where nothing of its run was wrong
	if len(b.Good()) != len(b.Cases) {
		b.javac(b.Good(), nil)
	}
}

func (b *Batch) javac(cs []*Case, _ []string) {
	args := []string{"-d", "classes", "-encoding", "UTF-8", "-nowarn", "-proc:none", "-Xmaxerrs", "100000"}
	list, err := filepath.Glob(filepath.Join(b.Dir, "rt", "com", "hbuf", "java", "*.java"))
	if err != nil || len(list) == 0 {
		b.fatal("runtime", err, nil)
	}
	list = append(list, filepath.Join(b.Dir, "rt", "Driver.java"))
	for _, c := range cs {
		if c.Err == "" {
			for n := range c.Files {
				list = append(list, filepath.Join(b.Dir, "src", fmt.Sprintf("s%d", c.N), n))
			}
			list = append(list, filepath.Join(b.Dir, "src", fmt.Sprintf("s%d", c.N), "VerifGlue.java"))
		}
	}
	cli.Write(b.Dir, map[string]string{"files": strings.Join(list, "\n")})
	cmd := exec.Command("javac", append(args, "@files")...)
	cmd.Dir = b.Dir
	out, err := cmd.CombinedOutput()
	if err == nil {
		return
	}
	n := 0
	for _, l := range strings.Split(string(out), "\n") {
		m := errLine.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		i, _ := strconv.Atoi(m[1])
		c := b.Cases[i]
		n++
		c.Stage = "compile"
		if len(c.Err) < 3000 {
			line, _ := strconv.Atoi(m[3])
			ls := strings.Split(c.Files[m[2]], "\n")
			if m[2] == "VerifGlue.java" {
				ls = strings.Split(c.glue(), "\n")
			}
			if line <= len(ls) {
				l += "\n    " + strings.TrimSpace(ls[line-1])
			}
			c.Err += l + "\n"
		}
	}
	if n == 0 {
		b.fatal("javac", err, out)
	}
}

// Good lists the cases that compiled.
func (b *Batch) Good() (out []*Case) {
	for _, c := range b.Cases {
		if c.Err == "" {
			out = append(out, c)
		}
	}
	return
}

// Report reports every case that did not compile as a violation.
func (b *Batch) Report() {
	for _, c := range b.Cases {
		if c.Err == "" {
			continue
		}
		l := strings.SplitN(c.Err, "\n", 2)[0]
		if m := errLine.FindStringSubmatch(l); m != nil {
			kind := "glue"
			for _, k := range []string{"Data", "Enum", "Server"} {
				if strings.HasSuffix(m[2], k+".java") {
					kind = k
				}
			}
			l = kind + "-" + regexp.MustCompile(`\b(s\d+|[a-zA-Z0-9_$]*[A-Z0-9_$][a-zA-Z0-9_$]*)\b`).ReplaceAllString(m[4], "_")
		}
		if len(l) > 70 {
			l = l[:70]
		}
		b.r.Violation("java-"+c.Stage+"-"+l, "the Java of a valid schema set does not "+c.Stage+":\n"+c.Err, c.Replay(""))
	}
}

var baseJava = map[string]string{
	model.Int8: "Byte", model.Int16: "Short", model.Int32: "Integer", model.Int64: "Long", model.Uint8: "Character", model.Uint16: "Integer", model.Uint32: "Long",
	model.Uint64: "java.math.BigInteger", model.Bool: "Boolean", model.Float: "Float", model.Double: "Double", model.String: "String",
	model.Date: "java.util.Date", model.Decimal: "java.math.BigDecimal",
}

func src(n string) string { return strings.ReplaceAll(n, "$", ".") }

// Type is the Java type of a member.
func (c *Case) Type(t model.Type) string {
	ref := func(x model.Ref) string {
		switch x.Kind {
		case model.KEnum:
			return src(c.Enum(x.Enum))
		case model.KData:
			return src(c.Data(x.Data))
		}
		return baseJava[x.Base]
	}
	switch t.Cont {
	case model.Array:
		return "java.util.List<" + ref(t.Elem) + ">"
	case model.Map:
		return "java.util.Map<" + ref(t.Key) + ", " + ref(t.Elem) + ">"
	}
	return ref(t.Elem)
}

// glue states in types what the generated code has to offer.
func (c *Case) glue() string {
	var b strings.Builder
	fmt.Fprintf(&b, "package s%d;\n\nclass VerifGlue {\n", c.N)
	n := 0
	say := func(ret, params, body string) {
		n++
		fmt.Fprintf(&b, "\tstatic %s m%d(%s) throws Exception { %s }\n", ret, n, params, body)
	}
	for _, f := range c.S.Files {
		for _, decl := range f.Decls {
			switch x := decl.(type) {
			case *model.Data:
				t := src(c.Data(x))
				for _, fl := range x.AllFields() {
					ty := c.Type(fl.Type)
					h := model.Hump(fl.Name)
					say(ty, t+" v", "return v.get"+h+"();")
					say("void", t+" v, "+ty+" x", "v.set"+h+"(x);")
				}
				say(t, "", "return new "+t+"Impl();")
				say(t, t+" v", "return v.copy();")
				say("com.hbuf.java.Data", t+" v", "return v;")
				for _, e := range x.Ancestors() {
					say(src(c.Data(e)), t+" v", "return v;")
				}
			case *model.Enum:
				t := src(c.Enum(x))
				say(t, "int v", "return "+t+".valueOf(v);")
				say(t, "String v", "return "+t+".nameOf(v);")
			case *model.Server:
				t := src(c.Server(x))
				for _, m := range x.AllMethods() {
					ret := "Void"
					if m.Result != nil {
						ret = src(c.Data(m.Result))
					}
					say("java.util.concurrent.CompletableFuture<"+ret+">", t+" s, "+src(c.Data(m.Param))+" p, com.hbuf.java.Server.Context c", "return s."+model.Lower(m.Name)+"(p, c);")
				}
				say(t, "com.hbuf.java.Server.Client c", "return new "+t+"Client(c);")
				for _, e := range x.Extends {
					say(src(c.Server(e.Server)), t+" v", "return v;")
				}
			}
		}
	}
	b.WriteString("}\n")
	return b.String()
}

func (c *Case) ref(x model.Ref) map[string]any {
	o := map[string]any{"k": x.Base, "null": x.Null, "c": ""}
	switch x.Kind {
	case model.KEnum:
		o["k"], o["n"] = "enum", c.Enum(x.Enum)
	case model.KData:
		o["k"], o["n"] = "data", c.Data(x.Data)
	}
	return o
}

// TypeDesc describes a member type to the driver.
func (c *Case) TypeDesc(t model.Type) map[string]any {
	o := c.ref(t.Elem)
	o["cnull"] = t.ContNull
	switch t.Cont {
	case model.Array:
		o["c"] = "list"
	case model.Map:
		o["c"] = "map"
		o["key"] = c.ref(t.Key)
	}
	return o
}

func (c *Case) describe() map[string]any {
	ds, es, ss := []any{}, []any{}, []any{}
	for _, d := range c.S.Datas() {
		fs := []any{}
		for _, f := range d.AllFields() {
			fs = append(fs, map[string]any{"name": f.Name, "java": model.Hump(f.Name), "t": c.TypeDesc(f.Type)})
		}
		ds = append(ds, map[string]any{"n": c.Data(d), "cls": c.Data(d), "fields": fs})
	}
	for _, e := range c.S.Enums() {
		es = append(es, map[string]any{"n": c.Enum(e), "cls": c.Enum(e)})
	}
	for _, s := range c.S.Servers() {
		ms := []any{}
		for _, m := range s.AllMethods() {
			o := map[string]any{"name": m.Name, "java": model.Lower(m.Name), "param": c.Data(m.Param), "result": nil}
			if m.Result != nil {
				o["result"] = c.Data(m.Result)
			}
			ms = append(ms, o)
		}
		ss = append(ss, map[string]any{"n": c.Server(s), "cls": c.Server(s), "methods": ms})
	}
	return map[string]any{"data": ds, "enums": es, "servers": ss}
}

// Op is one operation of the driver.
type Op = map[string]any

// Run performs the operations. One that was not answered has a nil result.
func (b *Batch) Run(ops []Op) []map[string]any {
	var desc []any
	for _, c := range b.Good() {
		desc = append(desc, c.describe())
	}
	head, err := json.Marshal(desc)
	if err != nil {
		b.fatal("description", err, nil)
	}
	const procs = 4
	out := make([]map[string]any, len(ops))
	var wg sync.WaitGroup
	for p := 0; p < procs; p++ {
		lo, hi := len(ops)*p/procs, len(ops)*(p+1)/procs
		if lo == hi {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			b.run(head, ops[lo:hi], out[lo:hi])
		}()
	}
	wg.Wait()
	return out
}

func (b *Batch) run(head []byte, ops []Op, out []map[string]any) {
	for len(ops) > 0 {
		var in, buf, errb bytes.Buffer
		in.Write(head)
		in.WriteByte('\n')
		enc := json.NewEncoder(&in)
		for _, o := range ops {
			if err := enc.Encode(o); err != nil {
				b.fatal("encoding an operation", err, nil)
			}
		}
		cmd := exec.Command("java", "-Xss16m", "-cp", "classes", "Driver")
		cmd.Dir = b.Dir
		cmd.Stdin, cmd.Stdout, cmd.Stderr = &in, &buf, &errb
		if err := cmd.Start(); err != nil {
			b.fatal("driver", err, nil)
		}
		t := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
		err := cmd.Wait()
		t.Stop()
		dec := json.NewDecoder(&buf)
		dec.UseNumber()
		n := 0
		for n < len(ops) {
			var v map[string]any
			if dec.Decode(&v) != nil {
				break
			}
			out[n] = v
			n++
		}
		if n == len(ops) {
			return
		}
		e := errb.String()
		if len(e) > 1500 {
			e = e[:1500]
		}
		out[n] = map[string]any{"panic": fmt.Sprintf("the process ended: %v\n%s", err, e)}
		ops, out = ops[n+1:], out[n+1:]
	}
}
