package main

// Exploration engines: choice-tree enumeration (stateless DFS) and BFS over
// explicit model states. Both are exhaustive within the bounds the checks set.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/maphash"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

const nWorkers = 8

var hseed = maphash.MakeSeed()

func hashString(s string) uint64 { return maphash.String(hseed, s) }

// ---------------------------------------------------------------- run state

// Violation is one property violation with what is needed to replay it.
type Violation struct {
	Property string   `json:"property"`
	Space    string   `json:"space"`           // which exploration of the check
	Choices  []int    `json:"choices"`         // choice vector (choice-tree spaces)
	Path     []string `json:"path,omitempty"`  // operation history (BFS spaces)
	Message  string   `json:"message"`         // what was expected / observed
	Trace    []string `json:"trace,omitempty"` // readable steps
	Repro    string   `json:"reproduced,omitempty"`
	Replay   string   `json:"replay_cmd,omitempty"`
	order    int
}

// SpaceStat are the measured numbers of one exploration.
type SpaceStat struct {
	Name        string  `json:"name"`
	Bound       string  `json:"bound"`
	Executions  int64   `json:"executions"`
	Transitions int64   `json:"transitions"`
	Exhaustive  bool    `json:"exhaustive"`
	Seconds     float64 `json:"seconds"`
}

// Run is the context of one check run.
type Run struct {
	ID        string
	Thorough  bool
	Seed      int
	start     time.Time
	deadline  time.Time
	cut       atomic.Bool // some exploration hit the deadline
	states    stateSet
	outcomes  stateSet
	trans     atomic.Int64
	traces    atomic.Int64
	mu        sync.Mutex
	samples   []string
	spaces    []SpaceStat
	violation *Violation
	known     map[string]int64
	only      *Violation // replay mode: run only this one
	wk        [nWorkers]workerState
	extra     map[string]interface{}
	nSpace    int
}

type workerState struct {
	since atomic.Int64 // unix nanos at which the current case began; 0 = idle
	cur   atomic.Pointer[C]
	desc  atomic.Pointer[string]
}

type stateSet struct {
	sh [64]struct {
		mu sync.Mutex
		m  map[uint64]struct{}
	}
}

// Add reports whether h is new.
func (s *stateSet) Add(h uint64) bool {
	b := &s.sh[h>>58]
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.m == nil {
		b.m = map[uint64]struct{}{}
	}
	if _, ok := b.m[h]; ok {
		return false
	}
	b.m[h] = struct{}{}
	return true
}

func (s *stateSet) Len() int64 {
	var n int64
	for i := range s.sh {
		s.sh[i].mu.Lock()
		n += int64(len(s.sh[i].m))
		s.sh[i].mu.Unlock()
	}
	return n
}

// Pick returns q in quick tier and t in thorough tier.
func (r *Run) Pick(q, t int) int {
	if r.Thorough {
		return t
	}
	return q
}

func (r *Run) violated() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.violation != nil
}

func (r *Run) report(v *Violation) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.violation == nil || v.order < r.violation.order {
		r.violation = v
	}
}

func (r *Run) sample(s string) {
	r.mu.Lock()
	if len(r.samples) < 12 {
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		r.samples = append(r.samples, s)
	}
	r.mu.Unlock()
}

// KnownFinding records that a listed finding was observed.
func (r *Run) KnownFinding(key string) {
	r.mu.Lock()
	r.known[key]++
	r.mu.Unlock()
}

func (r *Run) timeUp() bool {
	if time.Now().After(r.deadline) {
		r.cut.Store(true)
		return true
	}
	return false
}

// ---------------------------------------------------------------- choice tree

// C is the context of one execution of a body.
type C struct {
	r       *Run
	prefix  []int
	choices []int
	arity   []int
	trace   []string
	traceOn bool
	steps   int64
	w       int
	tmp     string // per-worker scratch directory (lazily made)
	split   bool   // stop at the first choice after the prefix
	stopped bool
}

type failure struct{ msg string }
type skipCase struct{}

// Choose returns a value in [0,n), enumerated by the engine.
func (c *C) Choose(n int) int {
	if n <= 0 {
		panic(skipCase{})
	}
	i := len(c.choices)
	v := 0
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v >= n {
			fatalf("engine: replay diverged: choice %d of %d at point %d", v, n, i)
		}
	}
	c.choices = append(c.choices, v)
	c.arity = append(c.arity, n)
	if c.split && i >= len(c.prefix) {
		c.stopped = true
		panic(skipCase{})
	}
	return v
}

// Bool is a two-way choice.
func (c *C) Bool() bool { return c.Choose(2) == 1 }

// Skip abandons this branch (outside of the bound); nothing is checked.
func (c *C) Skip() { panic(skipCase{}) }

// Fail reports a violation.
func (c *C) Fail(format string, a ...interface{}) {
	panic(failure{fmt.Sprintf(format, a...)})
}

// Logf records a readable step (only formatted when replaying or sampling).
func (c *C) Logf(format string, a ...interface{}) {
	if c.traceOn {
		c.trace = append(c.trace, fmt.Sprintf(format, a...))
	}
}

// Step counts one model transition compared against the implementation.
func (c *C) Step() { c.steps++ }

// Steps counts n model transitions.
func (c *C) Steps(n int) { c.steps += int64(n) }

// State records a distinct model state.
func (c *C) State(s string) { c.r.states.Add(hashString(s)) }

// Outcome records a distinct observed outcome.
func (c *C) Outcome(s string) { c.r.outcomes.Add(hashString(s)) }

// Text chooses a text of at most maxLen characters over the alphabet
// (shortest first is approximated by choosing the length first).
func (c *C) Text(alpha []rune, maxLen int) string {
	n := c.Choose(maxLen + 1)
	return c.TextN(alpha, n)
}

// TextN chooses a text of exactly n characters.
func (c *C) TextN(alpha []rune, n int) string {
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = alpha[c.Choose(len(alpha))]
	}
	return string(rs)
}

type Body func(c *C)

// runBody executes body once; returns a violation message or "".
func (r *Run) runBody(c *C, body Body) (msg string, skipped bool) {
	ws := &r.wk[c.w]
	ws.cur.Store(c)
	ws.since.Store(time.Now().UnixNano())
	defer ws.since.Store(0)
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case failure:
				msg = x.msg
			case skipCase:
				skipped = true
			default:
				msg = fmt.Sprintf("panic: %v%s", e, panicSite())
			}
		}
	}()
	body(c)
	return "", false
}

// panicSite names the innermost frames of the library under test.
func panicSite() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "/repo/") || strings.Contains(l, "dlclark/regexp2") {
			if i := strings.Index(l, " +0x"); i > 0 {
				l = l[:i]
			}
			out = append(out, l)
			if len(out) == 4 {
				break
			}
		}
	}
	if len(out) == 0 {
		return " (no library frame)\n" + string(debug.Stack())
	}
	return " at " + strings.Join(out, " < ")
}

// task is a prefix of choices; done when the prefix is a whole execution that has been run.
type task struct {
	prefix  []int
	arity   int // of the next choice; 0: none
	done    bool
	skipped bool
	msg     string
	steps   int64
	choices []int
}

// expand finds the number of alternatives after each prefix.
func (r *Run) expand(name string, body Body, tasks []*task) {
	var next atomic.Int64
	var bad atomic.Int64
	bad.Store(int64(len(tasks)))
	var wg sync.WaitGroup
	for w := 0; w < nWorkers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			var tmp string
			for {
				i := next.Add(1) - 1
				if i >= bad.Load() || i >= int64(len(tasks)) || r.timeUp() {
					return
				}
				t := tasks[i]
				if t.done {
					continue
				}
				c := &C{r: r, prefix: t.prefix, w: w, tmp: tmp, split: true}
				c.traceOn = i == int64(len(tasks)/2)
				msg, skipped := r.runBody(c, body)
				tmp = c.tmp
				if c.stopped {
					t.arity = c.arity[len(t.prefix)]
					continue
				}
				t.done, t.msg, t.skipped, t.steps, t.choices = true, msg, skipped, c.steps, c.choices
				if msg != "" {
					for {
						s := bad.Load()
						if i >= s || bad.CompareAndSwap(s, i) {
							break
						}
					}
				} else if c.traceOn && !skipped && len(c.trace) > 0 {
					r.sample(name + ": " + strings.Join(c.trace, "; "))
				}
			}
		}(w)
	}
	wg.Wait()
}

// Explore enumerates every execution of body within its bounds.
func (r *Run) Explore(name, bound string, body Body) {
	space := r.nSpace
	r.nSpace++
	if r.only != nil {
		if r.only.Space == name {
			r.replayOnce(name, body)
		}
		return
	}
	if r.violated() {
		return
	}
	began := time.Now()
	tasks := []*task{{}}
	var execs, trans atomic.Int64
	exh := true
	// split phase: expand the shallowest prefixes until there are enough tasks;
	// a prefix without further choices is executed here, once
	for round := 0; round < 12 && len(tasks) < 400; round++ {
		r.expand(name, body, tasks)
		var next []*task
		grew := false
		for _, t := range tasks {
			if t.arity == 0 {
				next = append(next, t)
				if t.msg != "" {
					break // what comes later is not needed
				}
				continue
			}
			grew = true
			for v := 0; v < t.arity; v++ {
				next = append(next, &task{prefix: append(append([]int{}, t.prefix...), v)})
			}
		}
		tasks = next
		if !grew {
			break
		}
	}
	var next atomic.Int64
	var stopAt atomic.Int64
	stopAt.Store(int64(len(tasks)))
	stop := func(t int64) {
		for {
			s := stopAt.Load()
			if t >= s || stopAt.CompareAndSwap(s, t) {
				return
			}
		}
	}
	var wg sync.WaitGroup
	var cutHere atomic.Bool
	for w := 0; w < nWorkers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			var tmp string
			var localSteps, localExecs int64
			flush := func() {
				execs.Add(localExecs)
				trans.Add(localSteps)
				localExecs, localSteps = 0, 0
			}
			defer flush()
			for {
				t := next.Add(1) - 1
				if t >= int64(len(tasks)) || t > stopAt.Load() {
					return
				}
				if k := tasks[t]; k.done {
					if !k.skipped {
						localExecs++
						localSteps += k.steps
					}
					if k.msg != "" {
						stop(t)
						r.report(&Violation{Property: r.ID, Space: name, Choices: k.choices, Message: k.msg, order: space<<32 + int(t)})
					}
					continue
				}
				root := tasks[t].prefix
				prefix := append([]int{}, root...)
				for n := 0; ; n++ {
					if n&0xff == 0 {
						if t > stopAt.Load() {
							break
						}
						if r.timeUp() {
							cutHere.Store(true)
							return
						}
					}
					c := &C{r: r, prefix: prefix, w: w, tmp: tmp}
					// deterministic sampling of readable traces
					c.traceOn = n == 37 && t%97 == 13 || n == 0 && t == int64(len(tasks)/2)
					msg, skipped := r.runBody(c, body)
					tmp = c.tmp
					if !skipped {
						localExecs++
						localSteps += c.steps
					}
					if msg != "" {
						stop(t)
						r.report(&Violation{Property: r.ID, Space: name, Choices: append([]int{}, c.choices...),
							Message: msg, order: space<<32 + int(t)})
						break
					}
					if c.traceOn && !skipped && len(c.trace) > 0 {
						r.sample(name + ": " + strings.Join(c.trace, "; "))
					}
					// next choice vector below root
					i := len(c.choices) - 1
					for i >= len(root) && c.choices[i]+1 >= c.arity[i] {
						i--
					}
					if i < len(root) {
						break
					}
					prefix = append(prefix[:0], c.choices[:i]...)
					prefix = append(prefix, c.choices[i]+1)
				}
			}
		}(w)
	}
	wg.Wait()
	if cutHere.Load() || r.violated() {
		exh = false
	}
	r.trans.Add(trans.Load())
	r.traces.Add(execs.Load())
	r.spaces = append(r.spaces, SpaceStat{name, bound, execs.Load(), trans.Load(), exh, time.Since(began).Seconds()})
	if v := r.violation; v != nil && v.Space == name && v.Trace == nil {
		r.confirm(v, body)
	}
}

// confirm re-runs a violation five times and records its readable trace.
func (r *Run) confirm(v *Violation, body Body) {
	n := 0
	for i := 0; i < 5; i++ {
		c := &C{r: r, prefix: v.Choices, traceOn: true}
		msg, _ := r.runBody(c, body)
		if msg != "" {
			n++
			v.Trace = append([]string{}, c.trace...)
			if len(v.Trace) > 24 {
				v.Trace = append([]string{"..."}, v.Trace[len(v.Trace)-24:]...)
			}
			v.Message = msg
		}
	}
	if n == 0 {
		v.Trace = []string{"(not reproduced in isolation: depends on earlier executions or scheduling)"}
	}
	v.Repro = fmt.Sprintf("%d/5", n)
}

func (r *Run) replayOnce(name string, body Body) {
	c := &C{r: r, prefix: r.only.Choices, traceOn: true}
	msg, _ := r.runBody(c, body)
	fmt.Printf("replay %s / %s\n", r.ID, name)
	for _, t := range c.trace {
		fmt.Println("  " + t)
	}
	if msg != "" {
		fmt.Println("VIOLATED: " + msg)
		r.report(&Violation{Property: r.ID, Space: name, Choices: c.choices, Message: msg, Trace: c.trace})
	} else {
		fmt.Println("holds")
	}
}

// ---------------------------------------------------------------- watchdog

const (
	hangLimit = 90 * time.Second
	heapLimit = 12 << 30
)

// watchdog turns a non-terminating or memory-exhausting case into a violation.
func (r *Run) watchdog() {
	var ms runtime.MemStats
	var bigSince [nWorkers]int64 // start time of the case seen running while the heap was huge
	var bigTicks [nWorkers]int
	for i := 0; ; i++ {
		time.Sleep(250 * time.Millisecond)
		now := time.Now().UnixNano()
		runtime.ReadMemStats(&ms)
		var stuck *workerState
		why := ""
		for w := range r.wk {
			s := r.wk[w].since.Load()
			if s == 0 {
				continue
			}
			d := time.Duration(now - s)
			if d > hangLimit {
				stuck, why = &r.wk[w], fmt.Sprintf("does not terminate (one case ran for %v)", d.Round(time.Second))
				continue
			}
			if ms.HeapAlloc <= heapLimit || d < 2*time.Second {
				bigTicks[w] = 0
				continue
			}
			if bigSince[w] != s {
				bigSince[w], bigTicks[w] = s, 0
			}
			if bigTicks[w]++; bigTicks[w] >= 4 {
				stuck, why = &r.wk[w], fmt.Sprintf("one case allocates without bound (heap %d MB)", ms.HeapAlloc>>20)
			}
		}
		if stuck == nil {
			continue
		}
		v := &Violation{Property: r.ID, Message: why, Repro: "hang", Trace: []string{}}
		if c := stuck.cur.Load(); c != nil {
			v.Choices = append([]int{}, c.choices...)
		}
		if d := stuck.desc.Load(); d != nil {
			v.Path = []string{*d}
		}
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		for _, l := range strings.Split(string(buf), "\n") {
			if strings.Contains(l, "/repo/") {
				v.Trace = append(v.Trace, strings.TrimSpace(l))
			}
		}
		r.mu.Lock()
		r.violation = v
		r.mu.Unlock()
		r.finish()
		os.Exit(1)
	}
}

// ---------------------------------------------------------------- results

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func fatalf(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "harness error: "+format+"\n", a...)
	os.Exit(3)
}

type knownFile struct {
	Findings []struct {
		Property string `json:"property"`
		Key      string `json:"key"`
		What     string `json:"what"`
	} `json:"findings"`
	Fixed []string `json:"fixed"`
}

func loadKnown() knownFile {
	var k knownFile
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err == nil {
		if err = json.Unmarshal(b, &k); err != nil {
			fatalf("known_findings.json: %v", err)
		}
	}
	return k
}

// IsKnown reports whether the finding key is listed for this property.
func (r *Run) IsKnown(key string) bool {
	for _, f := range knownFindings.Findings {
		if f.Property == r.ID && f.Key == key {
			return true
		}
	}
	return false
}

var knownFindings knownFile

// finish writes evidence and the replay file, prints the verdict and returns the exit status.
func (r *Run) finish() int {
	wall := time.Since(r.start).Seconds()
	tier := "quick"
	if r.Thorough {
		tier = "thorough"
	}
	exh := !r.cut.Load()
	for _, s := range r.spaces {
		exh = exh && s.Exhaustive
	}
	nviol := 0
	if r.violation != nil {
		nviol = 1
		exh = false
	}
	samples := r.samples
	if len(samples) == 0 {
		samples = []string{"(none)"}
	}
	ck := checks[r.ID]
	cov := map[string]interface{}{
		"states":                        r.states.Len(),
		"transitions":                   r.trans.Load(),
		"traces_validated_against_impl": r.traces.Load(),
		"distinct_outcomes":             r.outcomes.Len(),
		"exhaustive":                    exh,
		"samples":                       samples,
		"spaces":                        r.spaces,
		"rule":                          ck.Rule,
	}
	if len(r.known) > 0 {
		cov["known_findings_observed"] = r.known
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": r.ID, "tier": tier, "seed": r.Seed, "level": "model_checking",
		"coverage": cov, "wall_s": wall, "violations": nviol,
		"assumptions": append([]string{"texts are valid UTF-8 unless stated otherwise", "sequential consistency at statement granularity for schedules (Y03 only)"}, ck.Assume...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, r.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fatalf("%v", err)
	}
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	for _, s := range r.spaces {
		fmt.Fprintf(w, "%s: space %q [%s]: executions=%d transitions=%d exhaustive=%v %.1fs\n", r.ID, s.Name, s.Bound, s.Executions, s.Transitions, s.Exhaustive, s.Seconds)
	}
	fmt.Fprintf(w, "%s: states=%d transitions=%d traces=%d outcomes=%d exhaustive=%v wall=%.1fs\n", r.ID, r.states.Len(), r.trans.Load(), r.traces.Load(), r.outcomes.Len(), exh, wall)
	keys := make([]string, 0, len(r.known))
	for k := range r.known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		for _, f := range knownFindings.Findings {
			if f.Property == r.ID && f.Key == k {
				fmt.Fprintf(w, "KNOWN-FINDING: property=%s %s\n", r.ID, f.What)
			}
		}
	}
	if v := r.violation; v != nil {
		rd := filepath.Join(verifDir(), "replays")
		os.MkdirAll(rd, 0o755)
		path := filepath.Join(rd, r.ID+".json")
		v.Replay = "bash " + filepath.Join(verifDir(), "check.sh") + " replay " + path
		vb, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(path, append(vb, '\n'), 0o644)
		fmt.Fprintf(w, "%s: %s\n", r.ID, v.Message)
		for _, t := range v.Path {
			fmt.Fprintf(w, "  op: %s\n", t)
		}
		for _, t := range v.Trace {
			fmt.Fprintf(w, "  step: %s\n", t)
		}
		fmt.Fprintf(w, "VIOLATION property=%s replay=%s\n", r.ID, path)
		return 1
	}
	return 0
}
