// Package report collects what a check observed, prints VIOLATION and
// KNOWN-FINDING lines, and writes the evidence and replay files.
package report

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Run struct {
	ID    string
	Tier  string
	Seed  int64
	Level string
	Rule  string
	Root  string // /verif

	Assumptions []string

	mu         sync.Mutex
	start      time.Time
	evals      int
	distinct   map[uint64]struct{}
	samples    []any
	counts     map[string]int64
	sets       map[string]map[string]struct{}
	violations int
	seenKeys   map[string]int
	known      map[string]string
	knownHit   map[string]bool
	deadline   time.Time
}

// New reads VERIF_SEED, VERIF_TIER and the known-findings file.
func New(id, rule string) *Run {
	r := &Run{ID: id, Tier: os.Getenv("VERIF_TIER"), Level: "exploration", Rule: rule, Root: os.Getenv("VERIF_ROOT"),
		start: time.Now(), distinct: map[uint64]struct{}{}, counts: map[string]int64{}, sets: map[string]map[string]struct{}{},
		seenKeys: map[string]int{}, known: map[string]string{}, knownHit: map[string]bool{}}
	if r.Tier != "thorough" {
		r.Tier = "quick"
	}
	if r.Root == "" {
		r.Root = "/verif"
	}
	r.Seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	b, _ := os.ReadFile(filepath.Join(r.Root, "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=C12 key=<key> <text>
		if !strings.HasPrefix(l, "known: property="+id+" ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: property="+id+" "), " ", 2)
		if len(f) == 2 && strings.HasPrefix(f[0], "key=") {
			r.known[strings.TrimPrefix(f[0], "key=")] = f[1]
		}
	}
	return r
}

func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Budget gives q in the quick tier and t in the thorough one.
func (r *Run) Budget(q, t time.Duration) time.Time {
	d := q
	if r.Thorough() {
		d = t
	}
	r.deadline = time.Now().Add(d)
	return r.deadline
}

func (r *Run) N(q, t int) int {
	if r.Thorough() {
		return t
	}
	return q
}

// Case records one evaluated case; sig identifies it, nontrivial by the rule.
func (r *Run) Case(sig string, nontrivial bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals++
	if nontrivial {
		h := fnv.New64a()
		h.Write([]byte(sig))
		r.distinct[h.Sum64()] = struct{}{}
	}
}

// CaseN merges counts from a worker.
func (r *Run) CaseN(n int, hashes []uint64) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals += n
	for _, h := range hashes {
		r.distinct[h] = struct{}{}
	}
}

func (r *Run) Sample(v any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 6 {
		r.samples = append(r.samples, v)
	}
}

// Count adds to a named counter of observed events.
func (r *Run) Count(name string, n int64) {
	r.mu.Lock()
	r.counts[name] += n
	r.mu.Unlock()
}

// Max keeps the greatest value of a named measure.
func (r *Run) Max(name string, n int64) {
	r.mu.Lock()
	name = "greatest " + name
	if n > r.counts[name] {
		r.counts[name] = n
	}
	r.mu.Unlock()
}

// Seen adds to a named set of distinct things observed.
func (r *Run) Seen(set, v string) {
	r.mu.Lock()
	m := r.sets[set]
	if m == nil {
		m = map[string]struct{}{}
		r.sets[set] = m
	}
	m[v] = struct{}{}
	r.mu.Unlock()
}

// Violation reports one violation; key classifies it (used to match known
// findings and to avoid repeating itself), replay is written to a file.
func (r *Run) Violation(key, detail, replay string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	key = strings.ReplaceAll(key, " ", "_")
	if t, ok := r.known[key]; ok {
		if !r.knownHit[key] {
			r.knownHit[key] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.ID, t)
		}
		return
	}
	r.violations++
	r.seenKeys[key]++
	if r.seenKeys[key] > 1 || len(r.seenKeys) > 12 {
		return
	}
	dir := filepath.Join(r.Root, "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%d.txt", r.ID, len(r.seenKeys)))
	os.WriteFile(p, []byte("property "+r.ID+"\nkey "+key+"\nseed "+strconv.FormatInt(r.Seed, 10)+" tier "+r.Tier+"\n\n"+detail+"\n\n----\n"+replay), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, p)
	d := detail
	if len(d) > 1500 {
		d = d[:1500] + "..."
	}
	fmt.Printf("  [%s] %s\n", key, strings.ReplaceAll(d, "\n", "\n  "))
}

func (r *Run) Violated() bool { r.mu.Lock(); defer r.mu.Unlock(); return r.violations > 0 }

// Finish writes the evidence file and exits.
func (r *Run) Finish() {
	r.mu.Lock()
	defer r.mu.Unlock()
	cov := map[string]any{"evaluations": r.evals, "distinct_nontrivial": len(r.distinct), "rule": r.Rule, "samples": r.samples}
	if r.samples == nil {
		cov["samples"] = []any{}
	}
	if len(r.counts) > 0 {
		cov["observed_events"] = r.counts
	}
	if len(r.sets) > 0 {
		sizes := map[string]any{}
		for n, m := range r.sets {
			var ex []string
			for k := range m {
				ex = append(ex, k)
			}
			sort.Strings(ex)
			if len(ex) > 40 {
				ex = ex[:40]
			}
			sizes[n] = map[string]any{"distinct": len(m), "some": ex}
		}
		cov["observed_distinct"] = sizes
	}
	if len(r.knownHit) > 0 {
		var ks []string
		for k := range r.knownHit {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		cov["known_findings_hit"] = ks
	}
	keys := map[string]int{}
	for k, n := range r.seenKeys {
		keys[k] = n
	}
	if len(keys) > 0 {
		cov["violation_keys"] = keys
	}
	ev := map[string]any{"property": r.ID, "tier": r.Tier, "seed": r.Seed, "level": r.Level, "coverage": cov,
		"wall_s": time.Since(r.start).Seconds(), "violations": r.violations}
	if len(r.Assumptions) > 0 {
		ev["assumptions"] = r.Assumptions
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		panic(err)
	}
	os.MkdirAll(filepath.Join(r.Root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(r.Root, "evidence", r.ID+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Printf("%s %s: %d cases, %d distinct non-trivial, %d violations, %.1fs\n", r.ID, r.Tier, r.evals, len(r.distinct), r.violations, time.Since(r.start).Seconds())
	if r.violations > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}
