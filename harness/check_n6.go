package main

// N06 (isolation), N08 (replace), N09 (split).

import (
	"fmt"
	"strings"

	nsp "github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/splitpattern"
)

func init() {
	register("N06", "every sequence of slice/split creations and edits over a pool of strings; every member but the edited one keeps its complete observation", checkN06)
	register("N08", "every text, pattern, replacement and earlier edit; the result compared with cell substitution", checkN08)
	register("N09", "every text, earlier edit, segmentation or pattern and delimiter mode; pieces compared with the documented partition", checkN09)
}

// ---------------------------------------------------------------- N06

type poolEdit struct {
	name string
	f    func(n *NS)
}

func poolEdits() []poolEdit {
	return []poolEdit{
		{"ToUpper (same widths)", func(n *NS) { n.ToUpper() }},
		{"Map narrower", func(n *NS) { n.Map(func(rune) rune { return 'z' }) }},
		{"Map wider", func(n *NS) { n.Map(func(rune) rune { return '𝔾' }) }},
		{"Map swapping widths", func(n *NS) { n.Map(widthSwap) }},
		{"TransformRange exchanging two neighbours of different width", func(n *NS) {
			rs := []rune(n.Get())
			for i := 0; i+1 < len(rs); i++ {
				if len(string(rs[i])) != len(string(rs[i+1])) {
					st := len(string(rs[:i]))
					n.TransformRange(nsp.NewNormalizedRange(st, st+len(string(rs[i:i+2]))), []nsp.RuneChange{{Rune: rs[i+1], Change: 0}, {Rune: rs[i], Change: 0}}, 0)
					break
				}
			}
		}},
		{"Filter", func(n *NS) {
			i := 0
			n.Filter(func(rune) bool { i++; return i%2 == 0 })
		}},
		{"Filter all out", func(n *NS) { n.Filter(func(rune) bool { return false }) }},
		{"Trim", func(n *NS) { n.Trim() }},
		{"Prepend", func(n *NS) { n.Prepend("<é") }},
		{"Append", func(n *NS) { n.Append("é>") }},
		{"Replace", func(n *NS) { n.Replace(splitpattern.FromRune('京'), "q") }},
		{"Replace longer", func(n *NS) { n.Replace(splitpattern.FromFunc(isASCII), "京京") }},
		{"TransformRange first char", func(n *NS) {
			rs := []rune(n.Get())
			if len(rs) > 0 {
				n.TransformRange(nsp.NewNormalizedRange(0, len(string(rs[0]))), []nsp.RuneChange{{Rune: 'Ω', Change: 0}}, 0)
			}
		}},
		{"TransformRange last char", func(n *NS) {
			rs := []rune(n.Get())
			if len(rs) > 0 {
				n.TransformRange(nsp.NewNormalizedRange(n.Len()-len(string(rs[len(rs)-1])), n.Len()), []nsp.RuneChange{{Rune: 'W', Change: 0}, {Rune: '𝔾', Change: 1}}, 0)
			}
		}},
	}
}

// poolCreate derives new members from n; names describe them.
type poolCreate struct {
	name string
	f    func(n *NS) []*NS
}

func sliceBy(norm bool, front, back int) func(n *NS) []*NS {
	return func(n *NS) []*NS {
		s := n.GetOriginal()
		if norm {
			s = n.Get()
		}
		st := charStarts(s)
		if front+back >= len(st)-1 && len(st) > 1 {
			return nil
		}
		if len(st) == 1 {
			return nil
		}
		var r nsp.Range
		if norm {
			r = nsp.NewNormalizedRange(st[front], st[len(st)-1-back])
		} else {
			r = nsp.NewOriginalRange(st[front], st[len(st)-1-back])
		}
		x, ok := n.Slice(r)
		if !ok || x == nil {
			return nil
		}
		return []*NS{x}
	}
}

func splitBy(sp splitpattern.SplitPattern, b nsp.SplitDelimiterBehavior) func(n *NS) []*NS {
	return func(n *NS) []*NS {
		ps, err := n.Split(sp, b)
		if err != nil {
			return nil
		}
		return ps
	}
}

func poolCreates() []poolCreate {
	var out []poolCreate
	for _, norm := range []bool{true, false} {
		nm := map[bool]string{true: "normalized", false: "original"}[norm]
		for _, fb := range [][2]int{{0, 0}, {1, 0}, {0, 1}, {1, 1}} {
			out = append(out, poolCreate{fmt.Sprintf("Slice %s front-%d back-%d", nm, fb[0], fb[1]), sliceBy(norm, fb[0], fb[1])})
		}
	}
	for _, md := range modes {
		out = append(out, poolCreate{"Split at ascii " + md.name, splitBy(splitpattern.FromFunc(isASCII), md.b)})
	}
	out = append(out,
		poolCreate{"Split at nothing isolated", splitBy(splitpattern.FromRune(0), nsp.SplitDelimiterIsolated)},
		poolCreate{"Split at every char", splitBy(splitpattern.FromFunc(func(rune) bool { return true }), nsp.SplitDelimiterIsolated)})
	return out
}

func (c *C) poolRun(pool []*NS, names []string, creates []poolCreate, edits []poolEdit, nc, ne, maxPool int, big bool) {
	snap := func() []string {
		out := make([]string, len(pool))
		for i, p := range pool {
			out[i] = snapshot(p)
		}
		return out
	}
	before := snap()
	for k := 0; k < nc; k++ {
		i := c.Choose(len(pool))
		cr := &creates[c.Choose(len(creates))]
		var made []*NS
		if pm := try(func() { made = cr.f(pool[i]) }); pm != "" {
			c.Skip()
		}
		c.Step()
		c.Logf("%s of %s", cr.name, names[i])
		for q, b := range before {
			if a := snapshot(pool[q]); a != b {
				c.Fail("%s of %s changed %s from %.400s to %.400s", cr.name, names[i], names[q], b, a)
			}
		}
		if len(made) == 0 {
			c.Skip()
		}
		for q, x := range made {
			if len(pool) < maxPool {
				pool = append(pool, x)
				names = append(names, fmt.Sprintf("(%s of %s)#%d", cr.name, names[i], q))
				before = append(before, snapshot(x))
			}
		}
	}
	for k := 0; k < ne; k++ {
		i := c.Choose(len(pool))
		ed := &edits[c.Choose(len(edits))]
		if pm := try(func() { ed.f(pool[i]) }); pm != "" {
			c.Skip()
		}
		c.Step()
		c.Logf("%s on %s => %q", ed.name, names[i], quoteTrunc(pool[i].Get()))
		for q, b := range before {
			if q == i {
				before[q] = snapshot(pool[q])
				continue
			}
			if a := snapshot(pool[q]); a != b {
				c.Fail("%s on %s changed %s from %.400s to %.400s", ed.name, names[i], names[q], b, a)
			}
		}
	}
	if !big {
		c.State(strings.Join(before, "|"))
		c.Outcome(before[0])
	}
}

func checkN06(r *Run) {
	creates, edits := poolCreates(), poolEdits()
	starts := []struct {
		name string
		mk   func() *NS
	}{
		{`FromString("ab京d")`, func() *NS { return newReal("ab京d") }},
		{`FromString(" é京x ")`, func() *NS { return newReal(" é京x ") }},
		{`FromString("aé京𝔾").Map.Prepend`, func() *NS {
			n := newReal("aé京𝔾")
			try(func() { n.Map(widthSwap); n.Prepend("京") })
			return n
		}},
		{`FromString("xaéy京").Filter`, func() *NS {
			n := newReal("xaéy京")
			try(func() { n.Filter(func(x rune) bool { return x != 'a' }) })
			return n
		}},
	}
	r.Explore("pools", "4 starts, 1 creation then 2 edits of any member (pool <=4)", func(c *C) {
		st := &starts[c.Choose(len(starts))]
		c.Logf("%s", st.name)
		c.poolRun([]*NS{st.mk()}, []string{"root"}, creates, edits, 1, 2, 4, false)
	})
	r.Explore("pools, more edits", fmt.Sprintf("4 starts, 1 creation then %d edits of any member (pool <=3)", 3), func(c *C) {
		st := &starts[c.Choose(len(starts))]
		c.Logf("%s", st.name)
		c.poolRun([]*NS{st.mk()}, []string{"root"}, creates, append(append([]poolEdit{}, edits[:r.Pick(3, 8)]...), edits[r.Pick(10, 8):]...), 1, 3, 3, false)
	})
	r.Explore("nested pools", fmt.Sprintf("4 starts, %d creations from any member then 2 edits", 2), func(c *C) {
		st := &starts[c.Choose(len(starts))]
		c.Logf("%s", st.name)
		c.poolRun([]*NS{st.mk()}, []string{"root"}, creates, edits[:r.Pick(9, len(edits))], 2, r.Pick(1, 2), r.Pick(4, 5), false)
	})
	sz := fewSizes(r.Thorough)
	r.Explore("long pools", "unit^n, 1 creation, 1 edit of any member", func(c *C) {
		u := []string{"a", "é", "a京", " x"}[c.Choose(4)]
		n := newReal(longText("", u, sz[c.Choose(len(sz))], "b"))
		if c.Bool() {
			if pm := try(func() { n.Map(widthSwap) }); pm != "" {
				c.Skip()
			}
		}
		c.poolRun([]*NS{n}, []string{"root"}, creates[:11], edits, 1, 1, 4, true)
	})
	// a caller's inputs
	r.Explore("inputs", "captures handed to Split/Replace in every mode, scripts handed to TransformRange", func(c *C) {
		s := c.Text([]rune("a京"), 4)
		segs := c.chooseSegs(s, 1)
		caps := toCaptures(segs)
		p := &scriptedPattern{caps: caps}
		var sp splitpattern.SplitPattern = p
		inv := c.Choose(3)
		for i := 0; i < inv; i++ {
			sp = splitpattern.Invert(sp)
		}
		n := newReal(s)
		k := c.Choose(6)
		pm := try(func() {
			if k < 5 {
				ps, _ := n.Split(sp, modes[k].b)
				for _, q := range ps {
					q.ToUpper()
				}
			} else {
				n.Replace(sp, "é!")
			}
		})
		if pm != "" {
			c.Skip()
		}
		c.Step()
		if !sameSegs(capturesOf(caps), segs) {
			c.Fail("captures %v handed out by a pattern (inverted %d times) became %v after use in operation %d on %q", segs, inv, capturesOf(caps), k, s)
		}
	})
	r.Explore("scripts", "scripts handed to TransformRange and changed afterwards", func(c *C) {
		s := c.TextN([]rune("aé京"), 3)
		n, m := newReal(s), newMS(s)
		i := c.Choose(3)
		j := i + c.Choose(4-i)
		k := c.Choose(j - i + 1)
		sc := c.chooseScript(j-i-k, 1, []rune("x京"))
		keep := append([]nsp.RuneChange{}, sc...)
		if pm := try(func() { n.TransformRange(nsp.NewNormalizedRange(m.offsetOf(i), m.offsetOf(j)), sc, k) }); pm != "" {
			c.Skip()
		}
		c.Step()
		for q := range keep {
			if keep[q] != sc[q] {
				c.Fail("script %v became %v", keep, sc)
			}
		}
		b := snapshot(n)
		for q := range sc {
			sc[q] = nsp.RuneChange{Rune: 'Q', Change: 1}
		}
		if a := snapshot(n); a != b {
			c.Fail("changing the script afterwards changed the string from %s to %s", b, a)
		}
	})
	oddN06(r)
	hugeN06(r)
}

// ---------------------------------------------------------------- earlier edits shared by N08, N09

func preEdits() []Op {
	return []Op{
		editOp("fresh", func(n *NS) {}, func(m MS) MS { return m }),
		editOp("drop b", func(n *NS) { n.Filter(func(x rune) bool { return x != 'b' }) }, func(m MS) MS { return mFilter(m, func(x rune) bool { return x != 'b' }) }),
		editOp("widen", func(n *NS) { n.Map(widenMap) }, func(m MS) MS { return mMap(m, widenMap) }),
		editOp("Prepend", func(n *NS) { n.Prepend("a京") }, func(m MS) MS { return mPrepend(m, "a京") }),
		editOp("Append", func(n *NS) { n.Append("a") }, func(m MS) MS { return mAppend(m, "a") }),
		sliceNOp(1, 0),
		sliceOOp(0, 1),
		insertFrontOp('a'),
		replaceRuneOp('é', "aa"),
		editOp("Trim", func(n *NS) { n.Trim() }, func(m MS) MS { return mTrim(m, true, true) }),
	}
}

func widenMap(x rune) rune {
	switch x {
	case 'a':
		return 'é'
	case 'é':
		return '京'
	case '京':
		return 'a'
	}
	return x
}

// prepared applies an earlier edit; it skips the case when the library is already wrong there.
func (c *C) prepared(s string, op *Op) (*NS, MS) {
	m, ok := op.Model(newMS(s))
	if !ok {
		c.Skip()
	}
	var n *NS
	var err error
	if pm := try(func() { n, err = op.Real(newReal(s)) }); pm != "" || err != nil || n == nil || cmpAll(n, m) != "" {
		c.Skip()
	}
	return n, m
}

// ---------------------------------------------------------------- N08

func (c *C) replaceCase(n *NS, m MS, sp splitpattern.SplitPattern, segs []Seg, content, what string) {
	want := mReplace(m, cellMatches(m, segs), content)
	c.Logf("%s: Replace(%v, %q) => %s", what, segs, content, want)
	err := n.Replace(sp, content)
	c.Step()
	c.Outcome(want.Text())
	if err != nil {
		c.Fail("%s: Replace by %q: error %v", what, content, err)
	}
	if d := cmpAll(n, want); d != "" {
		c.Fail("%s: Replace by %q: %.400s", what, content, d)
	}
}

// trusted reports whether the pattern finds what it should (else S01/S02 report it).
func trusted(p *Pat, s string) bool {
	ok := false
	try(func() {
		cs, err := p.Make().FindMatches(s)
		ok = err == nil && sameSegs(capturesOf(cs), p.Segs(s))
	})
	return ok
}

func checkN08(r *Run) {
	contents := []string{"", "x", "é", "京", "xy", "京é", "a", "aaa", "𝔾𝔾", "é京x"}
	pres := preEdits()
	L := r.Pick(3, 4)
	r.Explore("every segmentation", fmt.Sprintf("texts <=%d over {a é 京}, every segmentation with <=1 empty match, %d replacements, %d earlier edits", L, len(contents), len(pres)), func(c *C) {
		s := c.Text([]rune("aé京"), L)
		op := &pres[c.Choose(len(pres))]
		n, m := c.prepared(s, op)
		if len(m.Cells) > L+1 {
			c.Skip()
		}
		segs := c.chooseSegs(m.Text(), 1)
		c.State(m.Key() + fmt.Sprint(segs))
		c.replaceCase(n, m, &scriptedPattern{caps: toCaptures(segs)}, segs, contents[c.Choose(len(contents))], fmt.Sprintf("%s of %q", op.Name, s))
	})
	r.Explore("longer segmentations", fmt.Sprintf("fresh texts of %d chars over widths 1 and 3, every segmentation, 4 replacements", r.Pick(6, 7)), func(c *C) {
		k := r.Pick(6, 7)
		rs := make([]rune, k)
		for i := range rs {
			rs[i] = widthRunes[c.Choose(2)*2][i]
		}
		n, m := newReal(string(rs)), newMS(string(rs))
		segs := c.chooseSegs(string(rs), 0)
		c.replaceCase(n, m, &scriptedPattern{caps: toCaptures(segs)}, segs, []string{"", "z", "京é", "xyzxy"}[c.Choose(4)], string(rs))
	})
	kit := patternKit(r.Thorough)
	r.Explore("catalogue", fmt.Sprintf("%d patterns, texts <=%d, 6 replacements, earlier edits", len(kit), r.Pick(3, 4)), func(c *C) {
		p := &kit[c.Choose(len(kit))]
		s := c.Text([]rune("aé京 ."), r.Pick(3, 4))
		op := &pres[c.Choose(r.Pick(3, len(pres)))]
		n, m := c.prepared(s, op)
		if !trusted(p, m.Text()) {
			c.Skip()
		}
		c.replaceCase(n, m, p.Make(), p.Segs(m.Text()), contents[c.Choose(6)], fmt.Sprintf("%s of %q, %s", op.Name, s, p.Name))
	})
	r.Explore("twice", "texts <=3, two replacements one after the other", func(c *C) {
		s := c.Text([]rune("aé京"), 3)
		n, m := newReal(s), newMS(s)
		for k := 0; k < 2; k++ {
			p := patRune([]rune("aé京x")[c.Choose(4)])
			c.replaceCase(n, m, p.Make(), p.Segs(m.Text()), contents[c.Choose(len(contents))], p.Name)
			if !c.rebase(n, &m) {
				c.Skip()
			}
		}
	})
	sz := fewSizes(r.Thorough)
	units := []string{"a", "ab", "é", "京a", "aab", "xé"}
	r.Explore("long texts", "unit^n, many matches, growing and shrinking replacements", func(c *C) {
		s := longText([]string{"", "é"}[c.Choose(2)], units[c.Choose(len(units))], sz[c.Choose(len(sz))], []string{"", "z"}[c.Choose(2)])
		if len(s) > 1100 && !r.Thorough {
			c.Skip() // every match rewrites the whole text
		}
		ps := []Pat{patRune('a'), patRune('é'), patString("ab"), patRegexp("a+"), patRegexp(""), patFunc("all", func(rune) bool { return true })}
		p := &ps[c.Choose(len(ps))]
		n, m := newReal(s), newMS(s)
		if !trusted(p, s) {
			c.Skip()
		}
		c.replaceCase(n, m, p.Make(), p.Segs(s), []string{"", "x", "京", "é𝔾z", longText("", "é", 90, "")}[c.Choose(5)], quoteTrunc(s)+p.Name)
	})
	r.Explore("long replacement", "replacements of unit^n", func(c *C) {
		s := c.Text([]rune("aé"), 3)
		n, m := newReal(s), newMS(s)
		p := patRune('a')
		content := longText("", []string{"x", "é", "京a"}[c.Choose(3)], sz[c.Choose(len(sz))], "")
		c.replaceCase(n, m, p.Make(), p.Segs(s), content, fmt.Sprintf("%q", s))
	})
	r.Explore("failing pattern", "the error is returned and nothing replaced", func(c *C) {
		s := c.Text([]rune("aé"), 2)
		n := newReal(s)
		b := snapshot(n)
		segs := c.chooseSegs(s, 0)
		if err := n.Replace(&scriptedPattern{err: errScripted, caps: toCaptures(segs)}, "x"); err != errScripted {
			c.Fail("Replace with a failing pattern returns %v", err)
		}
		c.Step()
		if a := snapshot(n); a != b {
			c.Fail("a failing pattern changed %s to %s", b, a)
		}
	})
	oddN08(r)
	hugeN08(r)
	growAll(r, growReplace)
}

// rebase re-reads the model from the real object after a verified step.
func (c *C) rebase(n *NS, m *MS) bool {
	var cells []Cell
	pos := 0
	for _, x := range n.Get() {
		o, ok := n.CoerceRangeToOriginal(nsp.NewNormalizedRange(pos, pos+1))
		if !ok {
			return false
		}
		cells = append(cells, Cell{x, o.Start(), o.End()})
		pos += len(string(x))
	}
	m.Cells = cells
	return true
}

// ---------------------------------------------------------------- N09

func (c *C) splitCase(n *NS, m MS, sp splitpattern.SplitPattern, segs []Seg, mode int, what string) {
	spans := splitSpans(segs, mode)
	c.Logf("%s: Split(%v, %s) => spans %v", what, segs, modes[mode].name, spans)
	got, err := n.Split(sp, modes[mode].b)
	c.Step()
	if err != nil {
		c.Fail("%s: Split %v %s: error %v", what, segs, modes[mode].name, err)
	}
	if d := splitDiff(got, m, spans); d != "" {
		c.Fail("%s: Split %.300s %s: %.400s", what, fmt.Sprint(segs), modes[mode].name, d)
	}
	// together the pieces are the text minus removed matches
	var b, w strings.Builder
	for _, p := range got {
		b.WriteString(p.Get())
	}
	t := m.Text()
	for _, s := range segs {
		if mode != 0 || !s.Match {
			w.WriteString(t[s.S:s.E])
		}
	}
	if b.String() != w.String() {
		c.Fail("%s: pieces reassemble to %q, expected %q", what, b.String(), w.String())
	}
}

func checkN09(r *Run) {
	pres := preEdits()
	L := r.Pick(4, 5)
	r.Explore("every segmentation", fmt.Sprintf("fresh texts <=%d over {a 京}, every segmentation with <=%d empty matches, 5 modes", L, r.Pick(2, 2)), func(c *C) {
		s := c.Text([]rune("a京"), L)
		segs := c.chooseSegs(s, 2)
		n, m := newReal(s), newMS(s)
		c.State(fmt.Sprint(s, segs))
		c.splitCase(n, m, &scriptedPattern{caps: toCaptures(segs)}, segs, c.Choose(5), fmt.Sprintf("%q", s))
		c.Outcome(fmt.Sprint(segs))
	})
	r.Explore("edited texts", fmt.Sprintf("texts <=%d over {a é 京 b sp}, %d earlier edits, every segmentation with <=1 empty match", 3, len(pres)), func(c *C) {
		s := c.Text([]rune("aé京b "), r.Pick(3, 3))
		op := &pres[1+c.Choose(len(pres)-1)]
		n, m := c.prepared(s, op)
		if len(m.Cells) > 5 {
			c.Skip()
		}
		segs := c.chooseSegs(m.Text(), 1)
		c.State(m.Key() + fmt.Sprint(segs))
		c.splitCase(n, m, &scriptedPattern{caps: toCaptures(segs)}, segs, c.Choose(5), fmt.Sprintf("%s of %q", op.Name, s))
	})
	r.Explore("long segmentations", fmt.Sprintf("every match/gap sequence of %d segments", r.Pick(10, 13)), func(c *C) {
		k := 1 + c.Choose(r.Pick(10, 13))
		var segs []Seg
		s := ""
		for i := 0; i < k; i++ {
			u := []string{"a", "京é"}[i%2]
			segs = append(segs, Seg{len(s), len(s) + len(u), c.Bool()})
			s += u
		}
		c.splitCase(newReal(s), newMS(s), &scriptedPattern{caps: toCaptures(segs)}, segs, c.Choose(5), s)
	})
	kit := patternKit(r.Thorough)
	r.Explore("catalogue", fmt.Sprintf("%d patterns, texts <=%d, 5 modes, earlier edits", len(kit), r.Pick(3, 4)), func(c *C) {
		p := &kit[c.Choose(len(kit))]
		s := c.Text([]rune("aé京 ."), r.Pick(3, 4))
		op := &pres[c.Choose(r.Pick(3, len(pres)))]
		n, m := c.prepared(s, op)
		if !trusted(p, m.Text()) {
			c.Skip()
		}
		c.splitCase(n, m, p.Make(), p.Segs(m.Text()), c.Choose(5), fmt.Sprintf("%s of %q, %s", op.Name, s, p.Name))
	})
	r.Explore("splits of pieces", "split, then split every piece again", func(c *C) {
		s := c.Text([]rune("aé京 "), r.Pick(4, 5))
		a, b := []rune("aé京 ")[c.Choose(4)], []rune("aé京 ")[c.Choose(4)]
		m1, m2 := c.Choose(5), c.Choose(5)
		n, m := newReal(s), newMS(s)
		pa, pb := patRune(a), patRune(b)
		if !trusted(&pa, s) {
			c.Skip()
		}
		pieces, err := n.Split(pa.Make(), modes[m1].b)
		spans := splitSpans(pa.Segs(s), m1)
		if err != nil || splitDiff(pieces, m, spans) != "" {
			c.Skip()
		}
		for i, p := range pieces {
			if spans[i][0] == spans[i][1] {
				continue
			}
			x, _ := m.cellAt(spans[i][0])
			y, _ := m.cellAt(spans[i][1])
			pm := mSliceN(m, x, y)
			if !trusted(&pb, pm.Text()) {
				c.Skip()
			}
			c.splitCase(p, pm, pb.Make(), pb.Segs(pm.Text()), m2, fmt.Sprintf("piece %d of %q", i, s))
		}
	})
	sz := fewSizes(r.Thorough)
	units := []string{"a", "ab", "é", "京a", "aab", " x"}
	r.Explore("long texts", "unit^n, all modes", func(c *C) {
		s := longText([]string{"", "é"}[c.Choose(2)], units[c.Choose(len(units))], sz[c.Choose(len(sz))], []string{"", "z"}[c.Choose(2)])
		ps := []Pat{patRune('a'), patRune('é'), patString("ab"), patRegexp("a+"), patRegexp(""), patFunc("all", func(rune) bool { return true })}
		p := &ps[c.Choose(len(ps))]
		if !trusted(p, s) {
			c.Skip()
		}
		n, m := newReal(s), newMS(s)
		if len(s) > 600 {
			// the piece comparison is quadratic here: compare only texts and offsets
			mode := c.Choose(5)
			got, err := n.Split(p.Make(), modes[mode].b)
			spans := splitSpans(p.Segs(s), mode)
			c.Step()
			if err != nil || len(got) != len(spans) {
				c.Fail("%d pieces (error %v), expected %d", len(got), err, len(spans))
			}
			for i, sp := range spans {
				if sp[0] < sp[1] && (got[i].Get() != s[sp[0]:sp[1]] || got[i].GetOriginal() != got[i].Get() || got[i].OriginalOffsets().Start != sp[0] || got[i].OriginalOffsets().End != sp[1]) {
					c.Fail("piece %d is %q at %v, expected %d-%d", i, got[i].Get(), got[i].OriginalOffsets(), sp[0], sp[1])
				}
			}
			return
		}
		c.splitCase(n, m, p.Make(), p.Segs(s), c.Choose(5), quoteTrunc(s)+p.Name)
	})
	r.Explore("failing pattern", "the pattern's error fails the split", func(c *C) {
		s := c.Text([]rune("aé"), 2)
		n := newReal(s)
		b := snapshot(n)
		got, err := n.Split(&scriptedPattern{err: errScripted, caps: toCaptures(c.chooseSegs(s, 0))}, modes[c.Choose(5)].b)
		c.Step()
		if err != errScripted || len(got) != 0 {
			c.Fail("Split with a failing pattern returns %d pieces and error %v", len(got), err)
		}
		if a := snapshot(n); a != b {
			c.Fail("a failing pattern changed %s to %s", b, a)
		}
	})
	oddN09(r)
	hugeN09(r)
}
