package main

import (
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	nsp "github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/splitpattern"
)

// BFS is an explicit-state search over edit histories of normalized strings.
type BFS struct {
	Name   string
	Bound  string
	Inits  []string
	Ops    []Op
	Depth  int // number of operations in a history
	MaxLen int // states with more normalized characters are not expanded further (reported)
	// OnStep judges a transition: panicMsg is non-empty if the real operation panicked,
	// err is its error. It returns a violation message or "".
	OnStep func(n *NS, m MS, panicMsg string, err error) string
	// OnState judges a state; build returns a fresh real object in that state.
	OnState func(build func() *NS, m MS) string
}

type bfsNode struct {
	init string
	path []uint8
	m    MS
}

func (b *BFS) build(nd *bfsNode) (n *NS) {
	n = newReal(nd.init)
	for _, o := range nd.path {
		n, _ = b.Ops[o].Real(n)
	}
	return n
}

// buildObserved also calls every read-only operation after the steps of the mask (bit 0: at the start).
func (b *BFS) buildObserved(nd *bfsNode, mask int) (n *NS) {
	n = newReal(nd.init)
	if mask&1 != 0 {
		observe(n)
	}
	for i, o := range nd.path {
		n, _ = b.Ops[o].Real(n)
		if mask>>(i+1)&1 != 0 {
			observe(n)
		}
	}
	return n
}

// masks lists the sets of steps 0..k after which a history is observed: every
// set for short histories, else each single step and all steps.
func masks(k int) []int {
	var out []int
	if k <= 1 {
		for m := 1; m < 1<<(k+1); m++ {
			out = append(out, m)
		}
		return out
	}
	for i := 0; i <= k; i++ {
		out = append(out, 1<<i)
	}
	return append(out, 1<<(k+1)-1)
}

// observe calls the read-only operations of a string.
func observe(n *NS) {
	if n == nil {
		return
	}
	try(func() {
		L := n.Len()
		n.OriginalAlignments()
		n.CoerceRangeToOriginal(nsp.NewNormalizedRange(0, L))
		n.CoerceRangeToNormalized(nsp.NewOriginalRange(0, n.OriginalLen()))
		n.GetRange(nsp.NewOriginalRange(0, n.OriginalLen()))
		n.GetOriginalRange(nsp.NewNormalizedRange(0, L))
		n.OriginalOffsets()
		n.Slice(nsp.NewNormalizedRange(0, L))
		n.Split(splitpattern.FromFunc(isASCII), nsp.SplitDelimiterIsolated)
	})
}

func observedMsg(mask, k int) string {
	var st []int
	for i := 0; i <= k; i++ {
		if mask>>i&1 != 0 {
			st = append(st, i)
		}
	}
	return fmt.Sprintf("with every read-only operation called after steps %v: ", st)
}

// judgeState judges a state reached without and with observations in between.
func (b *BFS) judgeState(nd *bfsNode) string {
	msg := ""
	if pm := try(func() { msg = b.OnState(func() *NS { return b.build(nd) }, nd.m) }); pm != "" {
		msg = pm
	}
	k := len(nd.path)
	for _, mask := range masks(k) {
		if msg != "" {
			break
		}
		if mask == 1<<k && k > 0 {
			continue // only the final state: part of judging it
		}
		if pm := try(func() { msg = b.OnState(func() *NS { return b.buildObserved(nd, mask) }, nd.m) }); pm != "" {
			msg = pm
		}
		if msg != "" {
			msg = observedMsg(mask, k) + msg
		}
	}
	return msg
}

// judgeMerged judges another history that leads to a known model state.
func (b *BFS) judgeMerged(nd *bfsNode) string {
	if b.OnState == nil {
		return ""
	}
	k := len(nd.path)
	msg := ""
	for _, mask := range []int{0, 1<<k - 1} {
		if pm := try(func() { msg = b.OnState(func() *NS { return b.buildObserved(nd, mask) }, nd.m) }); pm != "" {
			msg = pm
		}
		if msg != "" {
			if mask != 0 {
				msg = observedMsg(mask, k) + msg
			}
			break
		}
	}
	return msg
}

// judgeStep judges a transition, without and with observations; fit tells whether the result can be expanded.
func (b *BFS) judgeStep(nd *bfsNode, op *Op, nm MS) (msg string, fit bool) {
	k := len(nd.path)
	ms := []int{0}
	if b.OnState == nil { // else the states are judged both ways
		if k < 2 {
			ms = append(ms, masks(k)...)
		} else {
			ms = append(ms, 1<<(k+1)-1)
		}
	}
	for _, mask := range ms {
		var n *NS
		var err error
		base := b.buildObserved(nd, mask)
		pm := try(func() { n, err = op.Real(base) })
		if pm2 := try(func() { msg = b.OnStep(n, nm, pm, err) }); pm2 != "" {
			msg = pm2
		}
		if msg != "" {
			if mask != 0 {
				msg = observedMsg(mask, k) + msg
			}
			return msg, false
		}
		if mask == 0 {
			fit = !(pm != "" || err != nil || n == nil || cmpText(n, nm) != "")
		}
	}
	return "", fit
}

func (b *BFS) pathNames(nd *bfsNode, extra ...string) []string {
	out := []string{fmt.Sprintf("FromString(%q)", nd.init)}
	for _, o := range nd.path {
		out = append(out, b.Ops[o].Name)
	}
	return append(out, extra...)
}

func (r *Run) BFS(b *BFS) {
	began := time.Now()
	space := r.nSpace
	r.nSpace++
	if r.only != nil {
		if r.only.Space == b.Name {
			r.replayBFS(b)
		}
		return
	}
	if r.violated() {
		return
	}
	var trans, truncated, traces atomic.Int64
	local := &stateSet{} // dedupe per space, on the complete model state
	var layer []*bfsNode
	for _, s := range b.Inits {
		m := newMS(s)
		if local.Add(hashString(m.Key())) {
			layer = append(layer, &bfsNode{init: s, m: m})
		}
	}
	exh := true
	var lastViol *Violation
	var vmu sync.Mutex
	viol := func(layerNo, idx int, nd *bfsNode, choices []int, msg string, extra ...string) {
		vmu.Lock()
		defer vmu.Unlock()
		v := &Violation{Property: r.ID, Space: b.Name, Message: msg, Path: b.pathNames(nd, extra...), Choices: choices,
			Trace: []string{}, order: space<<32 + layerNo<<26 + idx}
		if lastViol == nil || v.order < lastViol.order {
			lastViol = v
		}
	}
	for depth := 0; ; depth++ {
		succ := make([][]*bfsNode, len(layer))
		var next atomic.Int64
		var wg sync.WaitGroup
		var stop atomic.Bool
		for w := 0; w < nWorkers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				ws := &r.wk[w]
				defer ws.since.Store(0)
				for {
					i := int(next.Add(1) - 1)
					if i >= len(layer) || stop.Load() {
						ws.since.Store(0)
						return
					}
					if i&0x3f == 0 && r.timeUp() {
						stop.Store(true)
						exh = false
						return
					}
					nd := layer[i]
					d := strings.Join(b.pathNames(nd), " . ")
					ws.desc.Store(&d)
					ws.since.Store(time.Now().UnixNano())
					if b.OnState != nil {
						msg := b.judgeState(nd)
						if msg != "" {
							viol(depth, i, nd, encodePath(nd, b, -1), msg)
							stop.Store(true)
							continue
						}
					}
					if depth >= b.Depth {
						traces.Add(1)
						continue
					}
					if b.MaxLen > 0 && len(nd.m.Cells) > b.MaxLen {
						truncated.Add(1)
						traces.Add(1)
						continue
					}
					for oi := range b.Ops {
						op := &b.Ops[oi]
						nm, ok := op.Model(nd.m)
						if !ok {
							continue
						}
						trans.Add(1)
						msg, fit := b.judgeStep(nd, op, nm)
						if msg != "" {
							viol(depth, i, nd, encodePath(nd, b, oi), msg, op.Name)
							stop.Store(true)
							break
						}
						if !fit {
							continue // another property's violation: do not explore beyond
						}
						child := &bfsNode{init: nd.init, path: append(append([]uint8{}, nd.path...), uint8(oi)), m: nm}
						if local.Add(hashString(nm.Key())) {
							succ[i] = append(succ[i], child)
						} else if msg := b.judgeMerged(child); msg != "" {
							viol(depth, i, nd, encodePath(nd, b, oi), msg, op.Name)
							stop.Store(true)
							break
						}
					}
				}
			}(w)
		}
		wg.Wait()
		if lastViol != nil {
			break
		}
		if len(layer) > 0 && depth < 4 {
			nd := layer[len(layer)*2/3]
			r.sample(b.Name + ": " + strings.Join(b.pathNames(nd), " . ") + " => " + nd.m.String())
		}
		if depth >= b.Depth || !exh {
			break
		}
		layer = layer[:0]
		for _, s := range succ {
			layer = append(layer, s...)
		}
		if len(layer) == 0 {
			break
		}
	}
	for i := range local.sh {
		for h := range local.sh[i].m {
			r.states.Add(h)
		}
	}
	if lastViol != nil {
		exh = false
		r.confirmBFS(b, lastViol)
		r.report(lastViol)
	}
	r.trans.Add(trans.Load())
	r.traces.Add(traces.Load())
	bound := b.Bound
	if t := truncated.Load(); t > 0 {
		bound += fmt.Sprintf(" (%d states longer than %d characters not expanded further)", t, b.MaxLen)
	}
	r.spaces = append(r.spaces, SpaceStat{b.Name, bound, traces.Load(), trans.Load(), exh, time.Since(began).Seconds()})
}

// encodePath stores [index of init, ops..., last op or -1].
func encodePath(nd *bfsNode, b *BFS, last int) []int {
	out := []int{-1}
	for i, s := range b.Inits {
		if s == nd.init {
			out[0] = i
			break
		}
	}
	for _, o := range nd.path {
		out = append(out, int(o))
	}
	return append(out, last)
}

func (b *BFS) rerun(choices []int) string {
	nd := &bfsNode{init: b.Inits[choices[0]], m: newMS(b.Inits[choices[0]])}
	for _, o := range choices[1 : len(choices)-1] {
		nm, ok := b.Ops[o].Model(nd.m)
		if !ok {
			fatalf("replay diverged")
		}
		nd = &bfsNode{init: nd.init, path: append(append([]uint8{}, nd.path...), uint8(o)), m: nm}
	}
	last := choices[len(choices)-1]
	if last < 0 {
		return b.judgeState(nd)
	}
	nm, _ := b.Ops[last].Model(nd.m)
	msg, _ := b.judgeStep(nd, &b.Ops[last], nm)
	if msg == "" {
		msg = b.judgeMerged(&bfsNode{init: nd.init, path: append(append([]uint8{}, nd.path...), uint8(last)), m: nm})
	}
	return msg
}

func (r *Run) confirmBFS(b *BFS, v *Violation) {
	n := 0
	for i := 0; i < 5; i++ {
		if msg := b.rerun(v.Choices); msg != "" {
			n++
		}
	}
	v.Repro = fmt.Sprintf("%d/5", n)
}

func (r *Run) replayBFS(b *BFS) {
	fmt.Printf("replay %s / %s\n", r.ID, b.Name)
	for _, p := range r.only.Path {
		fmt.Println("  " + p)
	}
	if msg := b.rerun(r.only.Choices); msg != "" {
		fmt.Println("VIOLATED: " + msg)
		r.report(&Violation{Property: r.ID, Message: msg})
	} else {
		fmt.Println("holds")
	}
}
