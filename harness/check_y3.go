//go:build sched

package main

// Y03: the real library under a scheduler that switches between threads only
// where the plan says, with the race detector on. Each shard is a process of
// its own; what a fresh object gives comes from yet other processes.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/nlpodyssey/gotokenizers/verifsched"
)

func init() {
	register("Y03", "all interleavings at statement granularity of two calls (up to 1 preemption at every statement, up to 2 where the calls are short enough) on one shared object of every kind and on two objects side by side, under a controlled scheduler with the race detector on; cold processes for the first use of package-level state; results compared with those of fresh objects in fresh processes", checkY03,
		"switches happen before statements of the library, not inside one statement or inside dependencies; the race detector covers accesses that are not ordered by synchronisation in any explored schedule")
	extraModes["sched"] = schedMain
}

const y3Plan = 4

// y3Thread is what one thread does: calls on one of the objects.
type y3Thread struct {
	Obj int
	Ins []string
}

type y3Case struct {
	Kind string
	G    int
	Objs []int // components of the group
	Th   []y3Thread
}

func (k *y3Case) describe(groups [][]comp) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s:", k.Kind)
	for i, o := range k.Objs {
		fmt.Fprintf(&b, " object %d is %s;", i, groups[k.G][o].name)
	}
	for i, t := range k.Th {
		fmt.Fprintf(&b, " thread %d uses object %d on %q;", i, t.Obj, t.Ins)
	}
	return b.String()
}

func y3Groups() [][]comp {
	groups := y2Comps()
	for g := range groups {
		var keep []comp
		for _, cp := range groups[g] {
			if !strings.HasPrefix(cp.name, "normalizer sequence with a failing member") {
				keep = append(keep, cp)
			}
		}
		groups[g] = keep
	}
	return groups
}

// y3Cases lists the cases; the order is fixed.
func y3Cases(groups [][]comp, thorough bool) []y3Case {
	var out []y3Case
	for g := range groups {
		for k := range groups[g] {
			ins := groups[g][k].inputs
			if strings.HasPrefix(groups[g][k].name, "pipeline ") && !thorough {
				ins = ins[:2]
			}
			n := len(ins)
			one := func(s ...string) []string { return s }
			for i := 0; i < n; i++ {
				out = append(out, y3Case{"shared object", g, []int{k}, []y3Thread{{0, one(ins[i])}, {0, one(ins[i])}}})
				for d := 1; d < n; d++ {
					if d == 1 || thorough || d == 2 && i%2 == 0 {
						out = append(out, y3Case{"shared object", g, []int{k}, []y3Thread{{0, one(ins[i])}, {0, one(ins[(i+d)%n])}}})
					}
				}
			}
			for i := 0; i < n; i++ {
				if i > 0 && !thorough {
					break
				}
				a, b, c := ins[i], ins[(i+1)%n], ins[(i+2)%n]
				out = append(out, y3Case{"shared object, two calls each", g, []int{k}, []y3Thread{{0, one(a, b)}, {0, one(b, c)}}})
				out = append(out, y3Case{"shared object, two calls each", g, []int{k}, []y3Thread{{0, one(a, a)}, {0, one(b, a)}}})
			}
			o := (k + 1) % len(groups[g])
			oi := groups[g][o].inputs
			out = append(out, y3Case{"two objects", g, []int{k, o}, []y3Thread{{0, one(ins[0])}, {1, one(oi[0])}}})
			out = append(out, y3Case{"two objects", g, []int{k, k}, []y3Thread{{0, one(ins[0])}, {1, one(ins[n-1])}}})
			if thorough {
				for i := 1; i < len(oi); i++ {
					out = append(out, y3Case{"two objects", g, []int{k, o}, []y3Thread{{0, one(ins[i%n])}, {1, one(oi[i])}}})
				}
				out = append(out, y3Case{"shared object, three threads", g, []int{k}, []y3Thread{{0, one(ins[0])}, {0, one(ins[0])}, {0, one(ins[n-1])}}})
				out = append(out, y3Case{"shared object, three threads", g, []int{k}, []y3Thread{{0, one(ins[n-1])}, {0, one(ins[0])}, {0, one(ins[1])}}})
			}
		}
	}
	return out
}

// ---------------------------------------------------------------- shard

type y3Req struct {
	Thorough bool
	Cases    []int
	Want     map[string]string // group/component/input
	Budget   int               // runs per case for two preemptions
	Long     int               // longest run with preemptions at every point
	Only     []int             // one plan: first, at, to, ...
	Cold     bool
	Reset    bool // reset package-level state before every run
	Probe    bool // only find out whether resetting package-level state is possible
	Progress string
	Verbose  bool
	Deadline int64 // unix time
}

type y3Out struct {
	Runs, Points int64
	States       int64
	Outcomes     map[string]int
	Violation    string
	Case         int
	Plan         []int
	Reset        bool
	MaxPoints    int
	Full1        int // ... and those with a preemption at every point
	Full2        int // cases in which all pairs of preemptions were tried
	Slow         bool
	Cut          bool // stopped by the time limit
}

func wantKey(g, k int, in string) string { return fmt.Sprintf("%d/%d/%s", g, k, in) }

var (
	y3LastSteps int
	y3Runs      atomic.Int64
)

type y3Shard struct {
	groups [][]comp
	req    *y3Req
	out    *y3Out
	prog   *os.File
	reset  bool
	states map[uint64]struct{}
}

// execute runs one case under one plan; returns the points passed in all and a complaint.
func (s *y3Shard) execute(ci int, k *y3Case, plan []int) (steps, used int, bad string) {
	if s.prog != nil {
		line := fmt.Sprintf("%-118s\n", fmt.Sprint(ci, plan))
		s.prog.WriteAt([]byte(line), 0)
	}
	if s.reset {
		verifsched.Reset()
	}
	objs := make([]compObj, len(k.Objs))
	for i, o := range k.Objs {
		objs[i] = s.groups[k.G][o].make()
	}
	var at, to [y3Plan]int
	np := (len(plan) - 1) / 2
	for i := 0; i < np; i++ {
		at[i], to[i] = plan[1+2*i], plan[2+2*i]
	}
	n := len(k.Th)
	res := make([][]held, n)
	for i := range res {
		res[i] = make([]held, len(k.Th[i].Ins))
	}
	var wg sync.WaitGroup
	wg.Add(n)
	verifsched.Begin(n, plan[0], np, at, to)
	for t := 0; t < n; t++ {
		go func() {
			verifsched.Start(t)
			for j, in := range k.Th[t].Ins {
				res[t][j] = safeCall(objs[k.Th[t].Obj], in)
			}
			verifsched.End(t)
			wg.Done()
		}()
	}
	wg.Wait()
	var sites [y3Plan]int32
	steps, used, sites = verifsched.Finish()
	y3Runs.Add(1)
	s.out.Runs++
	s.out.Points += int64(steps)
	if steps > s.out.MaxPoints {
		s.out.MaxPoints = steps
	}
	s.states[hashString(fmt.Sprint(ci, plan[0], sites, steps))] = struct{}{}
	for t := 0; t < n; t++ {
		for j, in := range k.Th[t].Ins {
			got := res[t][j].render()
			o := k.Objs[k.Th[t].Obj]
			want := s.req.Want[wantKey(k.G, o, in)]
			if got != want && bad == "" {
				bad = fmt.Sprintf("thread %d: %s on %q gives %.300s, alone it gives %.300s", t, s.groups[k.G][o].name, in, got, want)
			}
			if s.req.Verbose {
				fmt.Fprintf(os.Stderr, "  thread %d: %q -> %.300s\n", t, in, got)
			}
		}
	}
	for i, o := range objs {
		if o.check != nil && bad == "" {
			if d := o.check(); d != "" {
				bad = fmt.Sprintf("object %d: %s", i, d)
			}
		}
	}
	if s.req.Verbose {
		for i := 0; i < used; i++ {
			site := "?"
			if sites[i] >= 0 && int(sites[i]) < len(verifsched.Sites) {
				site = verifsched.Sites[sites[i]]
			}
			fmt.Fprintf(os.Stderr, "  preemption at point %d, before %s, to thread %d\n", at[i], site, to[i])
		}
	}
	return
}

// explore runs all plans of a case; reports whether to stop.
func (s *y3Shard) explore(ci int, k *y3Case) bool {
	fail := func(plan []int, bad string) bool {
		if bad == "" {
			return false
		}
		s.out.Violation, s.out.Case, s.out.Plan = bad, ci, plan
		return true
	}
	if s.req.Only != nil {
		_, _, bad := s.execute(ci, k, s.req.Only)
		return fail(s.req.Only, bad)
	}
	n := len(k.Th)
	for first := 0; first < n; first++ {
		total, _, bad := s.execute(ci, k, []int{first})
		if fail([]int{first}, bad) {
			return true
		}
		if s.req.Cold {
			return false
		}
		// the points of a run without preemptions; a preempted run may be a little longer
		two := n == 2 && total*total/4 <= s.req.Budget
		if two {
			s.out.Full2++
		}
		var at []int
		count, lastOf := map[int32]int{}, map[int32]int{}
		for a := 1; a <= total; a++ {
			lastOf[verifsched.SiteOf(a)] = a
		}
		for a := 1; a <= total; a++ {
			x := verifsched.SiteOf(a)
			count[x]++
			if total <= s.req.Long || count[x] <= 2 || lastOf[x] == a {
				at = append(at, a)
			}
		}
		if len(at) == total {
			s.out.Full1++
		}
		for _, a := range at {
			for to := 0; to < n; to++ {
				if to == first && a <= total/n {
					continue // no switch
				}
				p1 := []int{first, a, to}
				t1, used, bad := s.execute(ci, k, p1)
				if fail(p1, bad) {
					return true
				}
				if !two || used < 1 {
					continue
				}
				for b := a + 1; b <= t1; b++ {
					p2 := []int{first, a, to, b, 1 - to}
					_, used, bad := s.execute(ci, k, p2)
					if fail(p2, bad) {
						return true
					}
					if used < 2 {
						break
					}
				}
			}
		}
	}
	return false
}

func schedMain() int {
	var req y3Req
	if err := json.NewDecoder(bufio.NewReader(os.Stdin)).Decode(&req); err != nil {
		fatalf("%v", err)
	}
	runtime.GOMAXPROCS(1)
	s := &y3Shard{groups: y3Groups(), req: &req, out: &y3Out{Slow: verifsched.Slow()}, states: map[uint64]struct{}{}}
	cases := y3Cases(s.groups, req.Thorough)
	if req.Progress != "" {
		f, err := os.Create(req.Progress)
		if err != nil {
			fatalf("%v", err)
		}
		s.prog = f
	}
	verifsched.Deadlock = func() {
		buf := make([]byte, 1<<14)
		buf = buf[:runtime.Stack(buf, true)]
		fmt.Fprintf(os.Stderr, "all threads are blocked\n%s", buf)
		os.Exit(68)
	}
	go func() {
		last, ticks := int64(-1), 0
		for {
			time.Sleep(2 * time.Millisecond)
			if verifsched.Slow() {
				y3LastSteps = verifsched.Stalled(y3LastSteps)
			}
			if n := y3Runs.Load(); n != last {
				last, ticks = n, 0
			} else if ticks++; ticks > 30000 {
				buf := make([]byte, 1<<14)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "a case does not finish\n%s", buf)
				os.Exit(67)
			}
		}
	}()
	deadline := time.Unix(req.Deadline, 0)
	s.reset = req.Reset
	if req.Probe {
		// package-level state is reset before every run, unless that changes what the library does
		s.reset = true
		for pass := 0; pass < 2 && s.reset; pass++ {
			for g := range s.groups {
				verifsched.Reset()
				for k, cp := range s.groups[g] {
					in := cp.inputs[0]
					if w, ok := req.Want[wantKey(g, k, in)]; ok && safeCall(cp.make(), in).render() != w {
						s.reset = false
					}
				}
			}
		}
		s.out.Reset = s.reset
		b, _ := json.Marshal(s.out)
		os.Stdout.Write(b)
		return 0
	}
	done := 0
	for _, ci := range req.Cases {
		if time.Now().After(deadline) {
			s.out.Cut = true
			break
		}
		if s.explore(ci, &cases[ci]) {
			break
		}
		done++
	}
	s.out.States = int64(len(s.states))
	b, _ := json.Marshal(s.out)
	os.Stdout.Write(b)
	return 0
}

// ---------------------------------------------------------------- coordinator

// y3Launch runs a shard; a crash is attributed to the plan recorded last.
func y3Launch(req y3Req) (out y3Out, log string) {
	dir, err := os.MkdirTemp("", "gtmcsched")
	if err != nil {
		fatalf("%v", err)
	}
	defer os.RemoveAll(dir)
	req.Progress = filepath.Join(dir, "p")
	if req.Deadline == 0 {
		req.Deadline = time.Now().Add(time.Hour).Unix()
	}
	in, _ := json.Marshal(req)
	cmd := exec.Command(os.Args[0], "sched", "-")
	cmd.Stdin = bytes.NewReader(in)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOMAXPROCS=1")
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err = cmd.Run()
	log = se.String()
	if err == nil {
		if err := json.Unmarshal(so.Bytes(), &out); err != nil {
			fatalf("shard output: %v", err)
		}
		return out, log
	}
	code := cmd.ProcessState.ExitCode()
	pb, _ := os.ReadFile(req.Progress)
	f := strings.NewReplacer("[", " ", "]", " ").Replace(string(pb))
	var nums []int
	for _, x := range strings.Fields(f) {
		n := 0
		fmt.Sscan(x, &n)
		nums = append(nums, n)
	}
	why := ""
	switch {
	case code == 66:
		why = "data race"
	case code == 67:
		why = "a call does not finish"
	case code == 68:
		why = "deadlock: no thread can go on"
	case strings.Contains(log, "fatal error: "):
		i := strings.Index(log, "fatal error: ")
		why = strings.SplitN(log[i:], "\n", 2)[0]
	case strings.Contains(log, "panic: ") && strings.Contains(log, "/repo/"):
		i := strings.Index(log, "panic: ")
		why = strings.SplitN(log[i:], "\n", 2)[0]
	}
	if why == "" || len(nums) < 2 && !req.Probe {
		fatalf("shard: %v\n%s", err, log)
	}
	out.Violation = why
	if len(nums) > 1 {
		out.Case, out.Plan = nums[0], nums[1:]
	}
	return out, log
}

func libLines(log string) []string {
	var out []string
	for _, l := range strings.Split(log, "\n") {
		if t := strings.TrimSpace(l); strings.Contains(t, "/repo/") || strings.Contains(t, "DATA RACE") || strings.HasPrefix(t, "Write at") || strings.HasPrefix(t, "Read at") || strings.HasPrefix(t, "Previous") || strings.HasPrefix(t, "thread ") || strings.HasPrefix(t, "preemption ") {
			out = append(out, t)
			if len(out) >= 40 {
				break
			}
		}
	}
	return out
}

func checkY03(r *Run) {
	groups := y3Groups()
	want := map[string]string{}
	var mu sync.Mutex
	par := func(n int, f func(i int)) {
		var next atomic.Int64
		var wg sync.WaitGroup
		for w := 0; w < nWorkers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					i := int(next.Add(1)) - 1
					if i >= n {
						return
					}
					f(i)
				}
			}()
		}
		wg.Wait()
	}
	type gk struct{ g, k int }
	var all []gk
	for g := range groups {
		for k := range groups[g] {
			all = append(all, gk{g, k})
		}
	}
	// component numbers of the baseline processes are those of y2Comps
	full := y2Comps()
	idx := func(g, k int) int {
		for i := range full[g] {
			if full[g][i].name == groups[g][k].name {
				return i
			}
		}
		fatalf("no component %s", groups[g][k].name)
		return 0
	}
	seen := map[string]bool{}
	for _, x := range all {
		n := fmt.Sprint(x.g, groups[x.g][x.k].name)
		if seen[n] {
			fatalf("two components named %s", n)
		}
		seen[n] = true
	}
	par(len(all), func(i int) {
		x := all[i]
		for _, in := range groups[x.g][x.k].inputs {
			o := baseline([]baseReq{{x.g, idx(x.g, x.k), []string{in}}})[0]
			mu.Lock()
			want[wantKey(x.g, x.k, in)] = o
			mu.Unlock()
		}
	})
	budget := r.Pick(1000, 120000)
	thorough := r.Thorough
	probe, _ := y3Launch(y3Req{Want: want, Probe: true})
	reset := probe.Reset
	if r.only != nil {
		if r.only.Path != nil && len(r.only.Choices) > 2 {
			thorough = r.only.Choices[0] == 1
			out, log := y3Launch(y3Req{Thorough: thorough, Cases: []int{r.only.Choices[1]}, Want: want, Only: r.only.Choices[2:], Verbose: true, Reset: reset && !strings.HasPrefix(r.only.Space, "first use")})
			cs := y3Cases(groups, thorough)
			fmt.Printf("replay Y03 / %s\n  %s\n", r.only.Space, cs[r.only.Choices[1]].describe(groups))
			for _, l := range libLines(log) {
				fmt.Println("  " + l)
			}
			if out.Violation != "" {
				fmt.Println("VIOLATED: " + out.Violation)
				r.report(&Violation{Property: r.ID, Message: out.Violation})
			} else {
				fmt.Println("holds")
			}
		}
		return
	}
	cases := y3Cases(groups, thorough)
	var best *Violation
	var stopAt atomic.Int64
	stopAt.Store(1 << 60)
	sum := y3Out{Reset: reset}
	run := func(space string, order int, req y3Req) {
		if int64(order) > stopAt.Load() {
			return
		}
		req.Deadline = r.deadline.Unix()
		out, log := y3Launch(req)
		mu.Lock()
		defer mu.Unlock()
		sum.Runs += out.Runs
		sum.Points += out.Points
		sum.States += out.States
		sum.Full2 += out.Full2
		sum.Full1 += out.Full1
		sum.Slow = sum.Slow || out.Slow
		sum.Cut = sum.Cut || out.Cut
		if out.MaxPoints > sum.MaxPoints {
			sum.MaxPoints = out.MaxPoints
		}
		if out.Violation == "" {
			return
		}
		v := &Violation{Property: r.ID, Space: space, Message: out.Violation, order: order, Path: []string{cases[out.Case].describe(groups)}, Trace: libLines(log)}
		t := 0
		if thorough {
			t = 1
		}
		v.Choices = append([]int{t, out.Case}, out.Plan...)
		if best == nil || order < best.order {
			best = v
			stopAt.Store(int64(order))
		}
	}
	// first use of package-level state: a process per case, no preemptions
	var cold []int
	last := gk{-1, -1}
	kind := ""
	for i, k := range cases {
		x := gk{k.G, k.Objs[0]}
		if x != last || k.Kind != kind {
			last, kind = x, k.Kind
			cold = append(cold, i)
		}
	}
	par(len(cold), func(i int) {
		run("first use in a cold process", i, y3Req{Thorough: thorough, Cases: []int{cold[i]}, Want: want, Cold: true})
	})
	coldRuns := sum.Runs
	if best == nil {
		const chunk = 8
		n := (len(cases) + chunk - 1) / chunk
		par(n, func(i int) {
			var cs []int
			for j := i; j < len(cases); j += n {
				cs = append(cs, j)
			}
			run("schedules", len(cases)+i, y3Req{Thorough: thorough, Cases: cs, Want: want, Reset: reset, Budget: budget, Long: r.Pick(400, 1<<20)})
		})
	}
	if best != nil {
		n := 0
		for i := 0; i < 3; i++ {
			out, log := y3Launch(y3Req{Thorough: thorough, Cases: []int{best.Choices[1]}, Want: want, Only: best.Choices[2:], Verbose: true, Reset: reset && !strings.HasPrefix(best.Space, "first use")})
			if out.Violation != "" {
				n++
				best.Trace = libLines(log)
			}
		}
		best.Repro = fmt.Sprintf("%d/3", n)
		r.report(best)
	}
	r.traces.Add(sum.Runs)
	r.trans.Add(sum.Points)
	r.spaces = append(r.spaces,
		SpaceStat{"first use in a cold process", fmt.Sprintf("%d processes, both threads one after the other, race detector on", len(cold)), coldRuns, 0, best == nil && !sum.Cut, 0},
		SpaceStat{"schedules", fmt.Sprintf("%d cases in every order of start, preempted before every statement executed (%d orders; longer runs: the first two times and the last time each statement is reached), at all pairs of statements executed (%d orders)", len(cases), sum.Full1, sum.Full2), sum.Runs - coldRuns, sum.Points, best == nil && !sum.Cut, 0})
	if sum.Cut {
		r.cut.Store(true)
	}
	r.extra["states"] = sum.States
	r.extra["scheduling_points_in_library"] = len(verifsched.Sites)
	r.extra["longest_run_points"] = sum.MaxPoints
	r.extra["package_state_reset_before_every_run"] = sum.Reset
	r.extra["library_starts_goroutines"] = sum.Slow
	for i := range cases {
		if i%97 == 0 {
			r.sample(cases[i].describe(groups))
		}
	}
}
