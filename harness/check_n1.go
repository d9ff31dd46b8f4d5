package main

// N01 (text), N02 (alignment), N03 (scripts).

import (
	"fmt"
	"unicode"

	nsp "github.com/nlpodyssey/gotokenizers/normalizedstring"
)

func init() {
	register("N01", "every edit history from every short text; after each edit text, original, offsets compared with the cell model; a panic is a violation", func(r *Run) { editChecks(r, false) })
	register("N02", "every edit history from every short text; after each edit the source of every normalized byte compared with the cell model; a panic leaves no alignment and is a violation", func(r *Run) { editChecks(r, true) })
	register("N03", "every consistent change script on every character-aligned range of every short fresh or edited text, compared with the script's meaning on cells", checkN03)
}

// judge compares the result of an edit; align selects N02 (source of each byte) or N01 (text).
func judge(n *NS, m MS, pm string, err error, align bool) string {
	if pm != "" {
		return pm
	}
	if err != nil {
		return ""
	}
	d := cmpText(n, m)
	if !align {
		return d
	}
	if d != "" {
		// a wrong text is N01's; here only require that what is there has a source at all
		for i := 0; i < len(n.Get()); i++ {
			o, ok := n.CoerceRangeToOriginal(nsp.NewNormalizedRange(i, i+1))
			if !ok || o.Start() < 0 || o.End() > len(m.Orig) || o.Start() > o.End() {
				return fmt.Sprintf("byte %d of normalized %q has no source in %q (%d-%d ok=%v)", i, n.Get(), m.Orig, o.Start(), o.End(), ok)
			}
		}
		return ""
	}
	return cmpAlign(n, m)
}

func (c *C) judge(n *NS, m MS, align bool) {
	c.Step()
	if d := judge(n, m, "", nil, align); d != "" {
		c.Fail("%s", d)
	}
}

func editChecks(r *Run, align bool) {
	// 1. explicit-state search over edit histories
	r.BFS(&BFS{
		Name: "histories", Bound: fmt.Sprintf("texts <=%d chars over {a É 京 𝔾 sp U+3000}, <=%d edits", r.Pick(4, 4), r.Pick(2, 3)),
		Inits: texts([]rune("aÉ京𝔾 \u3000"), r.Pick(4, 4)), Ops: editOps(true), Depth: r.Pick(2, 3), MaxLen: 14,
		OnStep: func(n *NS, m MS, pm string, err error) string { return judge(n, m, pm, err, align) },
	})
	r.BFS(&BFS{
		Name: "deep histories", Bound: fmt.Sprintf("texts <=3 chars over {a É U+3000 K ẞ}, <=%d edits", r.Pick(4, 6)),
		Inits: texts([]rune("aÉ\u3000Kẞ"), 3), Ops: editOps(false), Depth: r.Pick(4, 6), MaxLen: r.Pick(7, 9),
		OnStep: func(n *NS, m MS, pm string, err error) string { return judge(n, m, pm, err, align) },
	})
	// 2. two filters with every pair of keep masks, every combination of character widths
	r.Explore("filter masks", fmt.Sprintf("<=%d chars of every width combination, every pair of masks", r.Pick(5, 6)), func(c *C) {
		rs := c.chooseWidths(c.Choose(r.Pick(5, 6) + 1))
		stage := map[rune]int{}
		for _, x := range rs {
			stage[x] = c.Choose(3) // removed by the first filter, by the second, kept
		}
		n, m := newReal(string(rs)), newMS(string(rs))
		for f := 0; f < 2; f++ {
			keep := func(x rune) bool { return stage[x] > f }
			n.Filter(keep)
			m = mFilter(m, keep)
			c.judge(n, m, align)
		}
		c.State(m.Key())
		c.Outcome(m.Text())
		c.Logf("Filter twice %q stages %v => %s", string(rs), stage, m)
	})
	// 3. a map between every pair of widths at every position
	r.Explore("map widths", fmt.Sprintf("<=%d chars, every source and target width", r.Pick(5, 6)), func(c *C) {
		rs := c.chooseWidths(c.Choose(r.Pick(5, 6) + 1))
		to := map[rune]rune{}
		for i, x := range rs {
			to[x] = widthRunes[c.Choose(4)][7-i%8]
		}
		f := func(x rune) rune { return to[x] }
		n, m := newReal(string(rs)), newMS(string(rs))
		n.Map(f)
		m = mMap(m, f)
		c.judge(n, m, align)
		c.State(m.Key())
		c.Logf("Map %q => %s", string(rs), m)
	})
	// 4. trims: every white space / text combination
	ws := []rune(" \t\u0085\u3000xé京")
	r.Explore("trim", fmt.Sprintf("texts <=%d over white space of 1,2,3 bytes and text, all sides, then a second trim or edit", r.Pick(5, 6)), func(c *C) {
		s := c.Text(ws, r.Pick(5, 6))
		l, rt := c.Bool(), c.Bool()
		n, m := newReal(s), newMS(s)
		n.TrimLeftRight(l, rt)
		m = mTrim(m, l, rt)
		c.judge(n, m, align)
		switch c.Choose(4) {
		case 0:
			n.Trim()
			m = mTrim(m, true, true)
		case 1:
			n.TrimLeft()
			m = mTrim(m, true, false)
		case 2:
			n.TrimRight()
			m = mTrim(m, false, true)
		case 3:
			n.Filter(isASCII)
			m = mFilter(m, isASCII)
		}
		c.judge(n, m, align)
		c.State(m.Key())
		c.Outcome(m.Text())
		c.Logf("TrimLeftRight(%v,%v) %q => %s", l, rt, s, m)
	})
	// 5. prepend/append of every short text
	al := []rune("aé京𝔾")
	r.Explore("prepend append", "texts <=3 and added texts <=3 over widths 1-4, both, either order", func(c *C) {
		s := c.Text(al, 3)
		a := c.Text(al, 3)
		b := c.Text(al, r.Pick(1, 2))
		n, m := newReal(s), newMS(s)
		first := c.Bool()
		if first {
			n.Prepend(a)
			m = mPrepend(m, a)
			c.judge(n, m, align)
		}
		n.Append(a)
		m = mAppend(m, a)
		c.judge(n, m, align)
		if !first {
			n.Prepend(b)
			m = mPrepend(m, b)
			c.judge(n, m, align)
		}
		n.Append(b)
		m = mAppend(m, b)
		c.judge(n, m, align)
		c.State(m.Key())
		c.Logf("%q prepend/append %q %q => %s", s, a, b, m)
	})
	// 6. every code point, alone and in context
	ctx := [][2]string{{"", ""}, {"a", "b"}, {"京 ", "é"}}
	r.Explore("code points", "all 1112064 code points in 3 contexts, every kind of edit", func(c *C) {
		blk := c.Choose(nBlocks)
		cx := ctx[c.Choose(len(ctx))]
		for i := 0; i < 0x100; i++ {
			x := rune(blk*0x100 + i)
			if !validRune(x) {
				continue
			}
			s := cx[0] + string(x) + cx[1]
			m0 := newMS(s)
			do := func(name string, real func(n *NS), m MS) {
				n := newReal(s)
				real(n)
				c.Step()
				if d := judge(n, m, "", nil, align); d != "" {
					c.Fail("%s of %q (U+%04X): %s", name, s, x, d)
				}
			}
			do("ToLower", (*NS).ToLower, mMap(m0, unicode.ToLower))
			do("ToUpper", (*NS).ToUpper, mMap(m0, unicode.ToUpper))
			do("Trim", (*NS).Trim, mTrim(m0, true, true))
			do("TrimLeft", (*NS).TrimLeft, mTrim(m0, true, false))
			do("TrimRight", (*NS).TrimRight, mTrim(m0, false, true))
			drop := func(y rune) bool { return y != x }
			do("Filter", func(n *NS) { n.Filter(drop) }, mFilter(m0, drop))
			xs := string(x)
			do("Prepend", func(n *NS) { n.Prepend(xs) }, mPrepend(m0, xs))
			do("Append", func(n *NS) { n.Append(xs) }, mAppend(m0, xs))
			for _, y := range []rune("a京") {
				f := func(z rune) rune {
					if z == x {
						return y
					}
					return x
				}
				do("Map", func(n *NS) { n.Map(f) }, mMap(m0, f))
			}
		}
	})
	// 7. long texts: size-dependent paths
	units := []string{"a", "É", "京", " ", "\u3000", "aÉ", "京 ", "x\u3000", "A𝔾", "aÉ京"}
	ops := editOps(true)
	sz := sizes(r.Thorough)
	r.Explore("long texts", "pre+unit^n+post for n up to 4097, every edit, then a second edit", func(c *C) {
		u := units[c.Choose(len(units))]
		k := sz[c.Choose(len(sz))]
		edge := []string{"", "b", "  ", "\u3000é"}
		s := longText(edge[c.Choose(len(edge))], u, k, edge[c.Choose(2)+1])
		o1, o2 := &ops[c.Choose(len(ops))], &ops[c.Choose(r.Pick(3, len(ops)))*r.Pick(6, 1)%len(ops)]
		m := newMS(s)
		n := newReal(s)
		for _, o := range []*Op{o1, o2} {
			var ok bool
			if m, ok = o.Model(m); !ok {
				c.Skip()
			}
			n, _ = o.Real(n)
			c.Step()
			if d := judge(n, m, "", nil, align); d != "" {
				c.Fail("%s of %s: %.300s", o.Name, quoteTrunc(s), d)
			}
		}
	})
	// 8. long added texts
	r.Explore("long additions", "prepend/append of unit^n", func(c *C) {
		u := units[c.Choose(len(units))]
		a := longText("", u, sz[c.Choose(len(sz))], "")
		s := []string{"a", "é京", " "}[c.Choose(3)]
		n, m := newReal(s), newMS(s)
		if c.Bool() {
			n.Prepend(a)
			m = mPrepend(m, a)
		} else {
			n.Append(a)
			m = mAppend(m, a)
		}
		c.judge(n, m, align)
		n.ToUpper()
		m = mMap(m, unicode.ToUpper)
		c.judge(n, m, align)
	})
	hugeEdits(r, align)
	growEdits(r, align)
	pairsEdit(r, align)
}

// ---------------------------------------------------------------- N03

// applyScript gives the meaning of a script on cells [i,j) after k removed ones.
func applyScript(m MS, i, j, k int, script []nsp.RuneChange) MS {
	var out []Cell
	out = append(out, m.Cells[:i]...)
	p := i + k
	for _, ch := range script {
		if ch.Change == 1 {
			src := Cell{}
			if p > 0 {
				src = m.Cells[p-1]
			}
			out = append(out, Cell{ch.Rune, src.S, src.E})
		} else {
			out = append(out, Cell{ch.Rune, m.Cells[p].S, m.Cells[p].E})
			p += 1 - ch.Change
		}
	}
	if p != j {
		fatalf("script does not account for the whole range")
	}
	return m.with(append(out, m.Cells[j:]...))
}

// chooseScript picks a consistent script for a range of n characters, k of them removed in front.
func (c *C) chooseScript(n, maxIns int, runes []rune) []nsp.RuneChange {
	var out []nsp.RuneChange
	ins := 0
	for {
		// 0: stop/replace options depend on the rest
		opts := 0
		if n == 0 {
			opts = 1 // stop
		} else {
			opts = n * len(runes) // replace one, drop 0..n-1
		}
		canIns := ins < maxIns
		tot := opts
		if canIns {
			tot += len(runes)
		}
		v := c.Choose(tot)
		if v >= opts {
			out = append(out, nsp.RuneChange{Rune: runes[v-opts], Change: 1})
			ins++
			continue
		}
		if n == 0 {
			return out
		}
		drop := v % n
		out = append(out, nsp.RuneChange{Rune: runes[v/n], Change: -drop})
		n -= 1 + drop
	}
}

func checkN03(r *Run) {
	// how the string being edited was obtained
	pres := []Op{
		editOp("fresh", func(n *NS) {}, func(m MS) MS { return m }),
		editOp("drop first kind", func(n *NS) { n.Filter(isASCII) }, func(m MS) MS { return mFilter(m, isASCII) }),
		editOp("Map", func(n *NS) { n.Map(func(x rune) rune { return widthSwap(x) }) }, func(m MS) MS { return mMap(m, widthSwap) }),
		editOp("Prepend", func(n *NS) { n.Prepend("é") }, func(m MS) MS { return mPrepend(m, "é") }),
		editOp("Append", func(n *NS) { n.Append("京x") }, func(m MS) MS { return mAppend(m, "京x") }),
		sliceNOp(1, 0),
		insertFrontOp('H'),
	}
	script := func(maxLen, maxIns int, runes []rune, nPres int, widths int) Body {
		return func(c *C) {
			ln := c.Choose(maxLen + 1)
			rs := make([]rune, ln)
			for i := range rs {
				rs[i] = widthRunes[(c.Choose(widths)*2)%4][i]
				if widths == 4 {
					rs[i] = widthRunes[c.Choose(4)][i]
				}
			}
			s := string(rs)
			p := &pres[c.Choose(nPres)]
			n, m := newReal(s), newMS(s)
			m, ok := p.Model(m)
			if !ok {
				c.Skip()
			}
			var err error
			if pm := try(func() { n, err = p.Real(n) }); pm != "" || err != nil || cmpAll(n, m) != "" {
				c.Skip() // N01/N02/N05's business
			}
			c.doScript(n, m, maxIns, runes, s, p.Name)
		}
	}
	r.Explore("unconvertible ranges", "texts <=3 chars of 4 widths, two histories in a row, every original range (reversed and empty ones, ones out of the text included) which reports failure or converts to an empty range, insertions of 0, 1 and 2 characters", func(c *C) {
		ln := c.Choose(4)
		rs := make([]rune, ln)
		for i := range rs {
			rs[i] = widthRunes[c.Choose(4)][i]
		}
		s := string(rs)
		how := ""
		n, m := newReal(s), newMS(s)
		for k := 0; k < 2; k++ {
			ops := append([]Op{editOp("drop non-ASCII", func(n *NS) { n.Filter(func(x rune) bool { return !isASCII(x) }) }, func(m MS) MS { return mFilter(m, func(x rune) bool { return !isASCII(x) }) }),
				editOp("drop all", func(n *NS) { n.Filter(func(rune) bool { return false }) }, func(m MS) MS { return mFilter(m, func(rune) bool { return false }) })}, pres...)
			p := &ops[c.Choose(len(ops))]
			var ok bool
			if m, ok = p.Model(m); !ok {
				c.Skip()
			}
			how += p.Name + " "
			var err error
			if pm := try(func() { n, err = p.Real(n) }); pm != "" || err != nil || cmpAll(n, m) != "" {
				c.Skip()
			}
		}
		O := n.OriginalLen()
		a, b := c.Choose(O+2), c.Choose(O+2)
		rng := nsp.NewOriginalRange(a, b)
		nr, ok := n.CoerceRangeToNormalized(rng)
		want := m
		sc := []nsp.RuneChange{{Rune: '京', Change: 1}, {Rune: 'x', Change: 1}}[:c.Choose(3)]
		if ok {
			if nr.Start() != nr.End() || nr.Start() < 0 || nr.Start() > n.Len() {
				c.Skip()
			}
			i := 0
			for i < len(m.Cells) && m.offsetOf(i) < nr.Start() {
				i++
			}
			if m.offsetOf(i) != nr.Start() {
				c.Skip()
			}
			want = applyScript(m, i, i, 0, sc)
		}
		if pm := try(func() { n.TransformRange(rng, sc, 0) }); pm != "" {
			c.Fail("%sof %q, TransformRange(%#v, %v, 0), the range converting to %v, %v: %s", how, s, rng, sc, nr, ok, pm)
		}
		c.Step()
		c.State(want.Key())
		if d := cmpAll(n, want); d != "" {
			c.Fail("%sof %q, TransformRange(%#v, %v, 0), the range converting to %v, %v: %s", how, s, rng, sc, nr, ok, d)
		}
	})
	q := r.Pick(3, 4)
	r.Explore("scripts", fmt.Sprintf("texts <=%d chars of widths 1 and 3, 7 histories, every range (both referentials), every removed prefix, every script with <=%d insertions", q, r.Pick(1, 2)),
		script(q, r.Pick(1, 2), []rune{'x', '京'}, len(pres), 2))
	r.Explore("scripts more insertions", "texts <=2 chars, <=3 insertions", script(2, 3, []rune{'x', 'é'}, len(pres), 2))
	r.Explore("scripts on longer fresh texts", fmt.Sprintf("fresh texts <=%d chars, <=1 insertion of one character", r.Pick(4, 5)),
		script(r.Pick(4, 5), 1, []rune{'é'}, 1, 2))
	// long texts
	sz := sizes(r.Thorough)
	units := []string{"a", "é", "京", "a京", "𝔾é"}
	r.Explore("long scripts", "unit^n, ranges of characteristic sizes, uniform scripts", func(c *C) {
		u := units[c.Choose(len(units))]
		k := sz[c.Choose(len(sz))]
		s := longText("", u, k, "")
		n, m := newReal(s), newMS(s)
		L := len(m.Cells)
		i := []int{0, 1, L / 2, L - 1}[c.Choose(4)]
		j := []int{L, L - 1, L/2 + 1}[c.Choose(3)]
		if i > j || j > L || i < 0 {
			c.Skip()
		}
		rem := []int{0, 1, (j - i) / 2, j - i}[c.Choose(4)]
		if rem > j-i {
			c.Skip()
		}
		kind := c.Choose(4)
		var sc []nsp.RuneChange
		for q := j - i - rem; q > 0; {
			switch kind {
			case 0:
				sc = append(sc, nsp.RuneChange{Rune: 'x', Change: 0})
				q--
			case 1:
				sc = append(sc, nsp.RuneChange{Rune: '京', Change: 0}, nsp.RuneChange{Rune: 'é', Change: 1})
				q--
			case 2:
				d := 1
				if q == 1 {
					d = 0
				}
				sc = append(sc, nsp.RuneChange{Rune: 'y', Change: -d})
				q -= 1 + d
			case 3:
				sc = append(sc, nsp.RuneChange{Rune: 'z', Change: 1}, nsp.RuneChange{Rune: 'y', Change: -(q - 1)})
				q = 0
			}
		}
		a, b := m.offsetOf(i), m.offsetOf(j)
		want := applyScript(m, i, j, rem, sc)
		n.TransformRange(nsp.NewNormalizedRange(a, b), sc, rem)
		c.Step()
		if d := cmpAll(n, want); d != "" {
			c.Fail("TransformRange[%d,%d) removed %d kind %d on %s: %.300s", a, b, rem, kind, quoteTrunc(s), d)
		}
	})
	oddN03(r)
	hugeN03(r)
	growAll(r, growScript)
}

func widthSwap(x rune) rune {
	for w := range widthRunes {
		for i, y := range widthRunes[w] {
			if x == y {
				return widthRunes[3-w][i]
			}
		}
	}
	return x
}

func (c *C) doScript(n *NS, m MS, maxIns int, runes []rune, s, how string) {
	L := len(m.Cells)
	i := c.Choose(L + 1)
	j := i + c.Choose(L-i+1)
	var rng nsp.Range
	full := false
	if c.Bool() {
		// the same run addressed through the original referential, with every pair of
		// original bounds that selects exactly it
		if i == j {
			c.Skip()
		}
		a, b := m.Cells[i].S, m.Cells[j-1].E
		x, y := origRun(m, a, b)
		if x != i || y != j {
			c.Skip()
		}
		rng = nsp.NewOriginalRange(a, b)
	} else {
		rng = nsp.NewNormalizedRange(m.offsetOf(i), m.offsetOf(j))
		full = i == 0 && j == L && c.Bool()
	}
	k := c.Choose(j - i + 1)
	sc := c.chooseScript(j-i-k, maxIns, runes)
	want := applyScript(m, i, j, k, sc)
	keep := append([]nsp.RuneChange{}, sc...)
	if full {
		n.Transform(sc, k)
	} else {
		n.TransformRange(rng, sc, k)
	}
	c.Step()
	c.State(want.Key())
	c.Outcome(want.Text())
	c.Logf("%s of %q, TransformRange(%#v, %v, %d) => %s", how, s, rng, sc, k, want)
	for q := range keep {
		if keep[q] != sc[q] {
			c.Fail("the caller's script was modified: %v became %v", keep, sc)
		}
	}
	if d := cmpAll(n, want); d != "" {
		c.Fail("%s of %q, TransformRange(%#v, %v, %d): %s", how, s, rng, sc, k, d)
	}
}

// origRun is the run of cells [x,y) whose non-empty source lies inside [a,b); x==y if none.
func origRun(m MS, a, b int) (int, int) {
	x, y := -1, -1
	for i, cl := range m.Cells {
		if cl.S < cl.E && cl.S >= a && cl.E <= b {
			if x < 0 {
				x = i
			}
			y = i + 1
		}
	}
	if x < 0 {
		return 0, 0
	}
	return x, y
}
