// Package cli builds and runs the real command and observes it from outside.
package cli

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/harness/internal/report"
)

// Repo is the tree under test.
const Repo = "/repo"

// Build compiles the command from the working tree.
func Build(r *report.Run) string {
	bin := filepath.Join(os.TempDir(), "hbuf")
	c := exec.Command("go", "build", "-o", bin, "./cmd")
	c.Dir = Repo
	if out, err := c.CombinedOutput(); err != nil {
		fmt.Fprintf(os.Stderr, "harness error: building the command: %v\n%s", err, out)
		os.Exit(2)
	}
	return bin
}

// Result is what one run of a command showed.
type Result struct {
	Out  string // stdout and stderr
	Code int    // -1: killed or timed out
	Hung bool
	CPU  time.Duration // processor time
	RSS  int64         // greatest resident size in bytes
}

// Crashed says whether the output is that of a Go runtime failure.
func (x Result) Crashed() bool {
	return x.Hung || x.Code < 0 || strings.Contains(x.Out, "goroutine ") && (strings.Contains(x.Out, "panic:") || strings.Contains(x.Out, "fatal error:") || strings.Contains(x.Out, "runtime error"))
}

// Exec runs a command in dir with a time limit.
func Exec(limit time.Duration, dir string, env []string, name string, args ...string) Result {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	c := exec.CommandContext(ctx, name, args...)
	c.Dir = dir
	if env != nil {
		c.Env = append(os.Environ(), env...)
	}
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	c.Cancel = func() error { return syscall.Kill(-c.Process.Pid, syscall.SIGKILL) }
	c.WaitDelay = 2 * time.Second
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	x := Result{Out: b.String(), Code: c.ProcessState.ExitCode(), Hung: ctx.Err() != nil}
	if err != nil && c.ProcessState == nil {
		fmt.Fprintf(os.Stderr, "harness error: %s: %v\n", name, err)
		os.Exit(2)
	}
	x.CPU = c.ProcessState.UserTime() + c.ProcessState.SystemTime()
	if u, ok := c.ProcessState.SysUsage().(*syscall.Rusage); ok {
		x.RSS = u.Maxrss << 10
	}
	return x
}

// Hbuf runs the command.
func Hbuf(bin, dir string, args ...string) Result {
	return Exec(30*time.Second, dir, nil, bin, args...)
}

// Gen runs the command for one target.
func Gen(bin, in, out, target, pack string) Result {
	args := []string{"-i", in, "-o", out, "-t", target}
	if pack != "" {
		args = append(args, "-p", pack)
	}
	return Hbuf(bin, "", args...)
}

// Write puts files below dir.
func Write(dir string, files map[string]string) {
	for n, t := range files {
		p := filepath.Join(dir, n)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err == nil {
			err = os.WriteFile(p, []byte(t), 0o644)
			if err == nil {
				continue
			}
		}
		fmt.Fprintln(os.Stderr, "harness error: cannot write", p)
		os.Exit(2)
	}
}

// Tree reads every file below dir; a missing dir is empty.
func Tree(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil || i.IsDir() {
			return nil
		}
		b, _ := os.ReadFile(p)
		rel, _ := filepath.Rel(dir, p)
		out[rel] = string(b)
		return nil
	})
	return out
}

// Names lists the keys of a tree in order.
func Names(t map[string]string) []string {
	var out []string
	for n := range t {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// DiffTree describes the first difference of two trees, "" if there is none.
func DiffTree(a, b map[string]string) string {
	for _, n := range Names(a) {
		if _, ok := b[n]; !ok {
			return n + " is only in the first"
		}
		if a[n] != b[n] {
			x, y := strings.Split(a[n], "\n"), strings.Split(b[n], "\n")
			for i := 0; i < len(x) || i < len(y); i++ {
				l, m := "(end)", "(end)"
				if i < len(x) {
					l = x[i]
				}
				if i < len(y) {
					m = y[i]
				}
				if l != m {
					return fmt.Sprintf("%s line %d: %q and %q", n, i+1, l, m)
				}
			}
		}
	}
	for _, n := range Names(b) {
		if _, ok := a[n]; !ok {
			return n + " is only in the second"
		}
	}
	return ""
}

// Hash identifies a set of sources.
func Hash(files map[string]string, extra ...string) string {
	h := sha256.New()
	for _, n := range Names(files) {
		fmt.Fprintf(h, "%s\x00%s\x00", n, files[n])
	}
	for _, e := range extra {
		h.Write([]byte(e))
	}
	return string(h.Sum(nil)[:16])
}

// Show writes sources for a replay file.
func Show(files map[string]string) string {
	var b strings.Builder
	for _, n := range Names(files) {
		fmt.Fprintf(&b, "=== %s\n%s\n", n, files[n])
	}
	return b.String()
}

var dirN int64

// Dir makes a fresh directory below the run's scratch directory.
func Dir() string {
	d := filepath.Join(os.TempDir(), fmt.Sprintf("c%d", atomic.AddInt64(&dirN, 1)))
	if err := os.MkdirAll(d, 0o755); err != nil {
		fmt.Fprintln(os.Stderr, "harness error:", err)
		os.Exit(2)
	}
	return d
}

// Drop removes a directory made by Dir.
func Drop(d string) {
	if strings.HasPrefix(d, os.TempDir()+"/c") {
		os.RemoveAll(d)
	}
}

// Parallel runs n cases on the machine's cores until the deadline.
func Parallel(workers, n int, deadline time.Time, f func(i int)) {
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || time.Now().After(deadline) {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}
