// Package kit is the common ground of the checks: exploration budget, counters,
// violations and their replay files, known findings, evidence.
package kit

import (
	"encoding/json"
	"fmt"
	"hash/maphash"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Root is the directory of the framework (/verif unless told otherwise).
var Root = "/verif"

// Scratch is a directory for files of the run.
var Scratch = ""

// MaxViolations ends the exploration once that many have been seen.
var MaxViolations = 5

// Violation is one broken execution.
type Violation struct {
	Key    string `json:"key"`    // identifies the specific input, site or history
	What   string `json:"what"`   // one line
	Replay any    `json:"replay"` // enough to repeat it
}

// Ctx is handed to a check.
type Ctx struct {
	Prop     string
	Tier     string
	Seed     int64
	Start    time.Time
	Deadline time.Time

	States      atomic.Int64 // model states / distinct configurations
	Transitions atomic.Int64 // steps taken between them
	Traces      atomic.Int64 // executions of the real code compared with the model
	Evals       atomic.Int64
	Distinct    atomic.Int64

	shards   [64]shard
	timedOut atomic.Bool
	current  [16]atomic.Pointer[string]

	mu         sync.Mutex
	violations []Violation
	seenKeys   map[string]bool
	known      map[string]string
	knownHit   map[string]bool
	samples    []any
	extra      map[string]any
	bounds     []string
	assume     []string
}

func New(prop, tier string, seed int64, budget time.Duration) *Ctx {
	c := &Ctx{Prop: prop, Tier: tier, Seed: seed, Start: time.Now(), seenKeys: map[string]bool{},
		known: map[string]string{}, knownHit: map[string]bool{}, extra: map[string]any{}}
	c.Deadline = c.Start.Add(budget)
	c.loadKnown()
	return c
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough one.
func Pick[T any](c *Ctx, q, t T) T {
	if c.Thorough() {
		return t
	}
	return q
}

// Expired tells whether the budget is used up; the run is then not exhaustive.
func (c *Ctx) Expired() bool {
	if c.timedOut.Load() {
		return true
	}
	if time.Now().After(c.Deadline) {
		c.timedOut.Store(true)
		return true
	}
	return false
}

func (c *Ctx) loadKnown() {
	b, err := os.ReadFile(filepath.Join(Root, "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(strings.TrimSpace(l), "finding: property=")
		if !ok {
			continue
		}
		f := strings.SplitN(rest, " ", 3)
		if len(f) != 3 || f[0] != c.Prop {
			continue
		}
		key, ok := strings.CutPrefix(f[1], "key=")
		if !ok {
			continue
		}
		c.known[key] = f[2]
	}
}

// Violate records a violation. The first one per key counts.
func (c *Ctx) Violate(key, what string, replay any) {
	key = strings.ReplaceAll(key, " ", "_")
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.seenKeys[key] {
		return
	}
	c.seenKeys[key] = true
	if _, ok := c.known[key]; ok {
		c.knownHit[key] = true
		return
	}
	if len(c.violations) < max(50, MaxViolations) {
		c.violations = append(c.violations, Violation{key, what, replay})
	}
}

// Violated tells whether enough has been seen to stop early.
func (c *Ctx) Violated() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.violations) >= MaxViolations
}

// Stop tells an exploration loop to end.
func (c *Ctx) Stop() bool { return c.Expired() || c.Violated() }

func (c *Ctx) Sample(s any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.samples) < 8 {
		c.samples = append(c.samples, s)
	}
}

// Bound states what was enumerated, for the evidence.
func (c *Ctx) Bound(f string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.bounds = append(c.bounds, fmt.Sprintf(f, a...))
}

func (c *Ctx) Assume(s string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.assume = append(c.assume, s)
}

func (c *Ctx) Set(k string, v any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.extra[k] = v
}

func (c *Ctx) Add(k string, n int64) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if v, ok := c.extra[k].(int64); ok {
		c.extra[k] = v + n
	} else {
		c.extra[k] = n
	}
}

// Guard runs f and reports a panic in it.
func Guard(f func()) (p any, stack string) {
	defer func() {
		if r := recover(); r != nil {
			p = r
			stack = string(debug.Stack())
		}
	}()
	f()
	return nil, ""
}

// Parallel runs f(i) for i in [0,n) on all cores; it stops early when c says so.
// A panic in f is a violation of its own.
func (c *Ctx) Parallel(n int, f func(i int)) {
	c.ParallelW(n, func(_, i int) { f(i) })
}

// ParallelW is Parallel with the number of the worker.
func (c *Ctx) ParallelW(n int, f func(w, i int)) {
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	if workers > n {
		workers = n
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || c.Stop() {
					c.Case(w, "")
					return
				}
				c.Case(w, fmt.Sprintf("case %d of %d", i, n))
				if p, stack := Guard(func() { f(w, i) }); p != nil {
					c.Violate("panic", fmt.Sprintf("panic: %v (case %d)", p, i), stack)
				}
			}
		}()
	}
	wg.Wait()
}

// Seen counts s as distinct if it has not been seen before and tells whether it is new.
func (c *Ctx) Seen(s string) bool {
	h := maphash.String(hashSeed, s)
	sh := &c.shards[h%64]
	sh.Lock()
	defer sh.Unlock()
	if sh.m == nil {
		sh.m = map[uint64]struct{}{}
	}
	if _, ok := sh.m[h]; ok {
		return false
	}
	sh.m[h] = struct{}{}
	if n := c.Distinct.Add(1); n == 1 || n == 100 || n == 1000 {
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.Sample(s)
	}
	return true
}

var hashSeed = maphash.MakeSeed()

type shard struct {
	sync.Mutex
	m map[uint64]struct{}
}

// Case names the execution under way on a worker, for the watchdog.
func (c *Ctx) Case(worker int, label string) {
	c.current[worker%len(c.current)].Store(&label)
}

// inflight holds, per worker, the input under way: in a file that survives a fatal error of the run.
type inflight struct {
	since atomic.Int64
	slot  []byte
}

const slotSize = 1 << 17

var flights [16]inflight

// Flights prepares for Begin: an execution longer than limit ends the run with a violation.
func (c *Ctx) Flights(level string, limit time.Duration) {
	if Scratch != "" {
		f, err := os.OpenFile(filepath.Join(Scratch, "inflight"), os.O_RDWR|os.O_CREATE, 0o600)
		if err == nil && f.Truncate(slotSize*int64(len(flights))) == nil {
			if b, err := syscall.Mmap(int(f.Fd()), 0, slotSize*len(flights), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
				for i := range flights {
					flights[i].slot = b[i*slotSize : (i+1)*slotSize]
				}
			}
		}
	}
	go func() {
		for {
			time.Sleep(time.Second)
			for i := range flights {
				if s := flights[i].since.Load(); s != 0 && time.Since(time.Unix(0, s)) > limit {
					text, _, _ := strings.Cut(string(flights[i].slot), "\x00")
					c.Violate("nontermination", fmt.Sprintf("an execution has not ended after %v: %.200q", limit, text), text)
					os.Exit(c.Finish(level))
				}
			}
		}
	}()
}

// Begin notes the input that a worker is about to execute.
func (c *Ctx) Begin(worker int, label, text string) {
	f := &flights[worker%len(flights)]
	if f.slot != nil {
		n := copy(f.slot[:len(f.slot)-1], label)
		n += copy(f.slot[n:len(f.slot)-1], "\n")
		n += copy(f.slot[n:len(f.slot)-1], text)
		f.slot[n] = 0
	}
	f.since.Store(time.Now().UnixNano())
}

// End notes that the execution has ended.
func (c *Ctx) End(worker int) { flights[worker%len(flights)].since.Store(0) }

// Watch ends the run with a violation when an execution does not terminate:
// when the exploration is still busy long after its budget, or the heap grows without bound.
// Every exploration loop looks at the budget before each execution.
func (c *Ctx) Watch(level string, grace time.Duration) {
	go func() {
		m := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		for {
			time.Sleep(250 * time.Millisecond)
			metrics.Read(m)
			big := m[0].Value.Uint64() > 14<<30
			if !big && time.Now().Before(c.Deadline.Add(grace)) {
				continue
			}
			what := "an execution does not terminate"
			if big {
				what = "an execution uses memory without bound"
			}
			var cur []string
			for i := range c.current {
				if l := c.current[i].Load(); l != nil && *l != "" {
					cur = append(cur, *l)
				}
			}
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			c.Violate("nontermination", what+": one of "+strings.Join(cur, " | "), string(buf))
			os.Exit(c.Finish(level))
		}
	}()
}

// Finish writes the evidence, prints the verdict and returns the exit status.
func (c *Ctx) Finish(level string) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	wall := time.Since(c.Start).Seconds()
	exhaustive := !c.timedOut.Load() && len(c.violations) == 0
	cov := map[string]any{
		"exhaustive": exhaustive, "samples": c.samples, "rule": strings.Join(c.bounds, "; "),
		"evaluations": c.Evals.Load(), "distinct_nontrivial": c.Distinct.Load(),
	}
	if level == "model_checking" {
		cov["states"] = c.States.Load()
		cov["transitions"] = c.Transitions.Load()
		cov["traces_validated_against_impl"] = c.Traces.Load()
	}
	if len(c.knownHit) > 0 {
		cov["known_findings_seen"] = len(c.knownHit)
	}
	if c.samples == nil {
		cov["samples"] = []any{}
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	ev := map[string]any{
		"property": c.Prop, "tier": c.Tier, "seed": c.Seed, "level": level,
		"coverage": cov, "wall_s": wall, "assumptions": c.assume, "violations": len(c.violations),
	}
	if c.assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(Root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(Root, "evidence", c.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "cannot write evidence:", err)
		return 2
	}
	keys := make([]string, 0, len(c.known))
	for k := range c.known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if c.knownHit[k] {
			fmt.Printf("KNOWN-FINDING: property=%s key=%s %s\n", c.Prop, k, c.known[k])
		}
	}
	fmt.Printf("%s %s: evaluations=%d distinct=%d", c.Prop, c.Tier, c.Evals.Load(), c.Distinct.Load())
	if level == "model_checking" {
		fmt.Printf(" states=%d transitions=%d traces=%d", c.States.Load(), c.Transitions.Load(), c.Traces.Load())
	}
	fmt.Printf(" violations=%d exhaustive=%v wall=%.1fs\n", len(c.violations), exhaustive, wall)
	if len(c.violations) == 0 {
		return 0
	}
	dir := filepath.Join(Root, "replays")
	os.MkdirAll(dir, 0o755)
	for i, v := range c.violations {
		p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.Prop, i))
		b, err := json.MarshalIndent(v, "", " ")
		if err != nil {
			b = []byte(fmt.Sprintf("%q", fmt.Sprint(v)))
		}
		os.WriteFile(p, append(b, '\n'), 0o644)
		fmt.Printf("  %s: %s\n", v.Key, v.What)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, p)
	}
	return 1
}
