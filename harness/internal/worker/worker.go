// Package worker runs in-process cases of the code under test in a child
// process, so that a crash, a runaway loop or runaway memory is observed by the
// parent as an event of the case that caused it.
package worker

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/harness/internal/report"
)

const slotSize = 1 << 20

// Event is one line from the worker.
type Event struct {
	Kind   string // case, count, seen, sample, violation, done
	Key    string
	Detail string
	Replay string
	N      int64
	Hashes []uint64
	Any    any
}

// Out is the worker's side.
type Out struct {
	mu     sync.Mutex
	w      *bufio.Writer
	evals  int64
	hashes map[uint64]struct{}
	sent   map[uint64]struct{}
	counts map[string]int64
	seen   map[string]bool
	slots  []byte
	beat   []int64 // unix nano of the case start, 0 when idle
	Slots  int
}

func (o *Out) emit(e Event) {
	b, _ := json.Marshal(e)
	o.w.Write(b)
	o.w.WriteByte('\n')
}

func (o *Out) Violation(key, detail, replay string) {
	o.mu.Lock()
	defer o.mu.Unlock()
	o.emit(Event{Kind: "violation", Key: key, Detail: detail, Replay: replay})
	o.w.Flush()
}
func (o *Out) Count(name string, n int64) {
	o.mu.Lock()
	o.counts[name] += n
	o.mu.Unlock()
}
func (o *Out) Seen(set, v string) {
	o.mu.Lock()
	defer o.mu.Unlock()
	k := set + "\x00" + v
	if o.seen[k] {
		return
	}
	o.seen[k] = true
	o.emit(Event{Kind: "seen", Key: set, Detail: v})
}
func (o *Out) Sample(v any) {
	o.mu.Lock()
	o.emit(Event{Kind: "sample", Any: v})
	o.mu.Unlock()
}

// Case runs f as one case whose input is recorded in slot's journal first.
// A panic in f is a violation.
func (o *Out) Case(slot int, input []byte, hash uint64, nontrivial bool, f func()) {
	j := o.slots[slot*slotSize : (slot+1)*slotSize]
	n := len(input)
	if n > slotSize-16 {
		n = slotSize - 16
	}
	binary.LittleEndian.PutUint64(j, 0)
	copy(j[16:], input[:n])
	binary.LittleEndian.PutUint64(j, uint64(n)+1)
	atomic.StoreInt64(&o.beat[slot], time.Now().UnixNano())
	defer func() {
		atomic.StoreInt64(&o.beat[slot], 0)
		binary.LittleEndian.PutUint64(j, 0)
		if p := recover(); p != nil {
			st := string(debug.Stack())
			if !strings.Contains(st, "hbuf/pkg/") {
				fmt.Fprintf(os.Stderr, "harness error: %v\n%s", p, st)
				os.Exit(3)
			}
			o.Violation("panic", fmt.Sprintf("panic: %v\n%s", p, st), string(input))
		}
		o.mu.Lock()
		o.evals++
		if nontrivial {
			o.hashes[hash] = struct{}{}
		}
		o.mu.Unlock()
	}()
	f()
}

func (o *Out) flush() {
	o.mu.Lock()
	defer o.mu.Unlock()
	hs := make([]uint64, 0, len(o.hashes))
	for h := range o.hashes {
		hs = append(hs, h)
	}
	o.hashes = map[uint64]struct{}{}
	o.emit(Event{Kind: "case", N: o.evals, Hashes: hs})
	o.evals = 0
	for k, n := range o.counts {
		o.emit(Event{Kind: "count", Key: k, N: n})
	}
	o.counts = map[string]int64{}
	o.w.Flush()
}

// IsWorker says whether this process is the child.
func IsWorker() bool { return os.Getenv("VERIF_WORKER") != "" }

// Main runs body in the child, watching time per case and memory.
func Main(body func(o *Out)) {
	f, err := os.OpenFile(os.Getenv("VERIF_WORKER"), os.O_RDWR, 0)
	if err != nil {
		panic(err)
	}
	slots, _ := strconv.Atoi(os.Getenv("VERIF_SLOTS"))
	m, err := syscall.Mmap(int(f.Fd()), 0, slots*slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	pipe := os.NewFile(3, "events")
	o := &Out{w: bufio.NewWriterSize(pipe, 1<<16), hashes: map[uint64]struct{}{}, counts: map[string]int64{}, seen: map[string]bool{}, slots: m, beat: make([]int64, slots), Slots: slots}
	limit := 20 * time.Second
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 6<<30 {
				for i := range o.beat {
					if atomic.LoadInt64(&o.beat[i]) != 0 {
						o.hang(i, "memory use of the process exceeds 6 GB")
					}
				}
			}
			for i := range o.beat {
				if b := atomic.LoadInt64(&o.beat[i]); b != 0 && time.Since(time.Unix(0, b)) > limit {
					o.hang(i, "no result after "+limit.String())
				}
			}
		}
	}()
	go func() {
		for {
			time.Sleep(time.Second)
			o.flush()
		}
	}()
	body(o)
	o.flush()
	o.mu.Lock()
	o.emit(Event{Kind: "done"})
	o.w.Flush()
	os.Exit(0)
}

func (o *Out) hang(slot int, why string) {
	j := o.slots[slot*slotSize:]
	n := binary.LittleEndian.Uint64(j)
	in := ""
	if n > 0 {
		in = string(j[16 : 16+n-1])
	}
	o.Violation("hang", why+" on this input", in)
	o.mu.Lock()
	o.emit(Event{Kind: "done"})
	o.w.Flush()
	os.Exit(0)
}

// Parent starts this executable again as the child and collects its events.
// extra is appended to the environment. captured receives the child's own
// standard output and standard error (what the code under test printed).
func Parent(r *report.Run, slots int, extra ...string) (captured string, exit error) {
	dir, err := os.MkdirTemp("", "verif-w")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	jp := filepath.Join(dir, "journal")
	jf, err := os.Create(jp)
	if err != nil {
		panic(err)
	}
	if err := jf.Truncate(int64(slots) * slotSize); err != nil {
		panic(err)
	}
	self, _ := os.Executable()
	cmd := exec.Command(self, os.Args[1:]...)
	cmd.Env = append(append(os.Environ(), "VERIF_WORKER="+jp, "VERIF_SLOTS="+strconv.Itoa(slots), "GOTRACEBACK=all"), extra...)
	pr, pw, _ := os.Pipe()
	cmd.ExtraFiles = []*os.File{pw}
	outp := filepath.Join(dir, "out")
	of, _ := os.Create(outp)
	cmd.Stdout, cmd.Stderr = of, of
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	pw.Close()
	done := false
	sc := bufio.NewReaderSize(pr, 1<<20)
	for {
		line, err := sc.ReadBytes('\n')
		if err != nil {
			if err != io.EOF {
				panic(err)
			}
			break
		}
		var e Event
		if err := json.Unmarshal(line, &e); err != nil {
			panic(fmt.Sprint(err, string(line)))
		}
		switch e.Kind {
		case "case":
			r.CaseN(int(e.N), e.Hashes)
		case "count":
			r.Count(e.Key, e.N)
		case "seen":
			r.Seen(e.Key, e.Detail)
		case "sample":
			r.Sample(e.Any)
		case "violation":
			r.Violation(e.Key, e.Detail, e.Replay)
		case "done":
			done = true
		}
	}
	exit = cmd.Wait()
	of.Close()
	b, _ := readHead(outp, 1<<20)
	captured = string(b)
	if !done {
		// crashed: the journal names the inputs in flight
		j, _ := os.ReadFile(jp)
		var ins string
		for i := 0; i < slots; i++ {
			s := j[i*slotSize:]
			if n := binary.LittleEndian.Uint64(s); n > 0 && n < slotSize {
				ins += fmt.Sprintf("--- input in flight (slot %d)\n%s\n", i, s[16:16+n-1])
			}
		}
		if ins == "" || strings.HasPrefix(captured, "harness error") {
			fmt.Fprintln(os.Stderr, captured)
			os.Exit(2)
		}
		head := captured
		if len(head) > 6000 {
			head = head[:6000]
		}
		r.Violation("crash", fmt.Sprintf("the process running the code under test died: %v\n%s", exit, head), ins)
	}
	return captured, exit
}

func readHead(p string, n int64) ([]byte, error) {
	f, err := os.Open(p)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(io.LimitReader(f, n))
}
