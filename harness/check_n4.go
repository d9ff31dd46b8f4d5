package main

// N04 (range conversion), N05 (slices), N07 (inverse alignment).

import (
	"fmt"

	nsp "github.com/nlpodyssey/gotokenizers/normalizedstring"
)

func init() {
	register("N04", "on every reachable state every range from -1 to beyond the end in both referentials is converted and read in both directions and compared with the cell model", checkN04)
	register("N05", "on every reachable state every range of both referentials is sliced and the slice compared with the cell model; slices are operations of the history, so slices of slices of edits are covered", checkN05)
	register("N07", "on every reachable state the recomputed original alignments are compared with those derived from the cell model", checkN07)
}

// stateSpaces explores the reachable strings shared by N04, N05 and N07.
func stateSpaces(r *Run, onState func(build func() *NS, m MS) string) {
	okStep := func(n *NS, m MS, pm string, err error) string { return "" } // mismatching transitions are other properties' business
	wrap := func(build func() *NS, m MS) string {
		n := build()
		if n == nil || cmpAll(n, m) != "" {
			return "" // not the state the model is in: N01/N02/N05 report it
		}
		return onState(build, m)
	}
	// cheap states can be very many: all histories
	r.BFS(&BFS{Name: "reachable strings", Bound: fmt.Sprintf("texts <=3 chars over {a é 京 sp}, <=%d operations incl. slices and insertions", r.Pick(2, 3)),
		Inits: texts([]rune("aé京 "), 3), Ops: reachOps(true), Depth: r.Pick(2, 3), MaxLen: r.Pick(8, 9), OnStep: okStep, OnState: wrap})
	r.BFS(&BFS{Name: "deeper histories", Bound: fmt.Sprintf("texts <=3 chars over {a é sp}, <=%d operations", r.Pick(3, 4)),
		Inits: texts([]rune("aé "), 3), Ops: reachOps(false), Depth: r.Pick(3, 4), MaxLen: r.Pick(5, 7), OnStep: okStep, OnState: wrap})
	r.BFS(&BFS{Name: "wide texts", Bound: fmt.Sprintf("texts of %d chars over {a 京 𝔾}, <=1 operation", r.Pick(5, 6)),
		Inits: texts([]rune("a京𝔾"), r.Pick(5, 6)), Ops: reachOps(true), Depth: 1, MaxLen: 12, OnStep: okStep, OnState: wrap})
	// any alignment shape: cells with every (non-decreasing) grouping of sources, built by scripts
	r.Explore("alignment shapes", fmt.Sprintf("texts <=%d chars; every character kept, removed, widened, or followed by insertions, plus a front insertion", r.Pick(4, 5)), func(c *C) {
		n, m := c.shape(r.Pick(4, 5))
		if n == nil || cmpAll(n, m) != "" {
			c.Skip()
		}
		c.Step()
		c.State(m.Key())
		c.Logf("%s", m)
		if d := onState(func() *NS { return n }, m); d != "" {
			c.Fail("%s: %s", m, d)
		}
	})
	oddStates(r, onState)
}

// shape builds a string by one script giving every alignment shape; nil if the library panics.
func (c *C) shape(maxLen int) (*NS, MS) {
	L := c.Choose(maxLen + 1)
	rs := make([]rune, L)
	for i := range rs {
		rs[i] = widthRunes[c.Choose(2)*2][i]
	}
	s := string(rs)
	m := newMS(s)
	// per character: 0 removed, 1 kept, 2 replaced by wide, 3 kept plus one insertion, 4 replaced by wide plus insertion of narrow
	kinds := make([]int, L)
	nk := 5
	for i := range kinds {
		kinds[i] = c.Choose(nk)
	}
	var sc []nsp.RuneChange
	rem := 0
	last := -1
	for i, k := range kinds {
		if k == 0 {
			if last < 0 {
				rem++
			}
			continue
		}
		// count removed after i
		d := 0
		for q := i + 1; q < L && kinds[q] == 0; q++ {
			d++
		}
		last = i
		switch k {
		case 1:
			sc = append(sc, nsp.RuneChange{Rune: rs[i], Change: -d})
		case 2:
			sc = append(sc, nsp.RuneChange{Rune: widthSwap(rs[i]), Change: -d})
		case 3:
			sc = append(sc, nsp.RuneChange{Rune: rs[i], Change: 0}, nsp.RuneChange{Rune: 'é', Change: 1})
		case 4:
			sc = append(sc, nsp.RuneChange{Rune: widthSwap(rs[i]), Change: 0}, nsp.RuneChange{Rune: 'x', Change: 1})
		}
		if k >= 3 && d > 0 {
			c.Skip() // an insertion after dropped characters takes the last dropped one's source: other script
		}
	}
	if last < 0 {
		rem = L
		sc = nil
	}
	want := applyScript(m, 0, L, rem, sc)
	n := newReal(s)
	if pm := try(func() { n.Transform(sc, rem) }); pm != "" {
		return nil, m
	}
	if c.Bool() {
		if pm := try(func() {
			n.TransformRange(nsp.NewNormalizedRange(0, 0), []nsp.RuneChange{{Rune: '京', Change: 1}}, 0)
		}); pm != "" {
			return nil, m
		}
		want.Cells = append([]Cell{{'京', 0, 0}}, want.Cells...)
	}
	return n, want
}

// longStates gives structured long strings: base text, one edit.
func longStates(r *Run, name string, sz []int, f func(c *C, n *NS, m MS)) {
	units := []string{"a", "é", "京", "a京", " é", "𝔾"}
	none := noOp()
	ops := append(reachOps(true), none)
	then := append([]Op{none}, opsNamed(ops, "Filter(drop a)", "Prepend(\"é京\")", "SliceNorm(front-1,back-0 chars)", "SliceOrig(front-0,back-1 chars)", "TransformRange([0,0),insert 'H')")...)
	two := 0
	for _, n := range sz {
		if n == 17 || n == 65 || n == 129 || n == 257 || n == 513 {
			two++
		}
	}
	r.Explore(name, fmt.Sprintf("unit^n for n up to %d (%d sizes), one operation, for %d sizes another of %d", sz[len(sz)-1], len(sz), two, len(then)-1), func(c *C) {
		u := units[c.Choose(len(units))]
		k := sz[c.Choose(len(sz))]
		s := longText("", u, k, []string{"", "b"}[c.Choose(2)])
		op := &ops[c.Choose(len(ops))]
		second := &then[c.Choose(len(then))]
		if second != &then[0] && (k != 17 && k != 65 && k != 129 && k != 257 && k != 513 || op.Name == none.Name) {
			c.Skip()
		}
		n, m := newReal(s), newMS(s)
		for _, op := range []*Op{op, second} {
			var ok bool
			if m, ok = op.Model(m); !ok {
				c.Skip()
			}
			var err error
			if pm := try(func() { n, err = op.Real(n) }); pm != "" || err != nil || n == nil || cmpAll(n, m) != "" {
				c.Skip()
			}
		}
		c.Step()
		f(c, n, m)
	})
}

// ---------------------------------------------------------------- N04

func checkRange(n *NS, m MS, al [][2]int, text string, a, b int) string {
	// normalized range
	nr := nsp.NewNormalizedRange(a, b)
	if got, ok := n.CoerceRangeToNormalized(nr); !ok || got.Start() != a || got.End() != b {
		return fmt.Sprintf("normalized range %d-%d in its own referential became %d-%d ok=%v", a, b, got.Start(), got.End(), ok)
	}
	inN := a >= 0 && b <= len(text) && a <= b
	o, ok := n.CoerceRangeToOriginal(nr)
	os, osOK := n.GetOriginalRange(nr)
	ns, nsOK := n.GetRange(nr)
	switch {
	case a == b && inN:
		if !ok || o.Start() != a || o.End() != a {
			return fmt.Sprintf("empty normalized range %d-%d converts to %d-%d ok=%v", a, b, o.Start(), o.End(), ok)
		}
	case a > b:
		if ok {
			return fmt.Sprintf("reversed normalized range %d-%d converts to %d-%d", a, b, o.Start(), o.End())
		}
	case a < b && inN:
		if !ok || o.Start() != al[a][0] || o.End() != al[b-1][1] {
			return fmt.Sprintf("normalized range %d-%d of %q converts to original %d-%d ok=%v, expected %d-%d", a, b, text, o.Start(), o.End(), ok, al[a][0], al[b-1][1])
		}
		if w := m.Orig[al[a][0]:al[b-1][1]]; !osOK || os != w {
			return fmt.Sprintf("original text of normalized range %d-%d is %q ok=%v, expected %q", a, b, os, osOK, w)
		}
	case a < b:
		if ok {
			return fmt.Sprintf("out-of-bounds normalized range %d-%d (length %d) converts to %d-%d", a, b, len(text), o.Start(), o.End())
		}
	}
	if inN && (!nsOK || ns != text[a:b]) {
		return fmt.Sprintf("text of normalized range %d-%d is %q ok=%v, expected %q", a, b, ns, nsOK, text[a:b])
	}
	if !inN && nsOK {
		return fmt.Sprintf("text of invalid normalized range %d-%d is reported as %q", a, b, ns)
	}
	if d := under(ok, o.Start(), o.End(), m.Orig, os, osOK); d != "" {
		return fmt.Sprintf("original text of normalized range %d-%d: %s", a, b, d)
	}
	// original range
	or := nsp.NewOriginalRange(a, b)
	if got, ok := n.CoerceRangeToOriginal(or); !ok || got.Start() != a || got.End() != b {
		return fmt.Sprintf("original range %d-%d in its own referential became %d-%d ok=%v", a, b, got.Start(), got.End(), ok)
	}
	inO := a >= 0 && b <= len(m.Orig) && a <= b
	g, ok := n.CoerceRangeToNormalized(or)
	ns, nsOK = n.GetRange(or)
	os, osOK = n.GetOriginalRange(or)
	switch {
	case a == b && inO:
		if !ok || g.Start() != a || g.End() != a {
			return fmt.Sprintf("empty original range %d-%d converts to %d-%d ok=%v", a, b, g.Start(), g.End(), ok)
		}
	case a > b:
		if ok {
			return fmt.Sprintf("reversed original range %d-%d converts to %d-%d", a, b, g.Start(), g.End())
		}
	case a < b && inO:
		x, y := origRun(m, a, b)
		if x == y {
			if ok && g.Start() != g.End() {
				return fmt.Sprintf("original range %d-%d of %q holds no normalized character but converts to %d-%d", a, b, m.Orig, g.Start(), g.End())
			}
		} else if bx, by := m.offsetOf(x), m.offsetOf(y); !ok || g.Start() != bx || g.End() != by {
			return fmt.Sprintf("original range %d-%d of %q converts to normalized %d-%d ok=%v, expected %d-%d of %q", a, b, m.Orig, g.Start(), g.End(), ok, bx, by, text)
		} else if !nsOK || ns != text[bx:by] {
			return fmt.Sprintf("text of original range %d-%d is %q ok=%v, expected %q", a, b, ns, nsOK, text[bx:by])
		}
	}
	if inO && (!osOK || os != m.Orig[a:b]) {
		return fmt.Sprintf("original text of original range %d-%d is %q ok=%v, expected %q", a, b, os, osOK, m.Orig[a:b])
	}
	if !inO && osOK {
		return fmt.Sprintf("original text of invalid original range %d-%d is reported as %q", a, b, os)
	}
	if d := under(ok, g.Start(), g.End(), text, ns, nsOK); d != "" {
		return fmt.Sprintf("text of original range %d-%d: %s", a, b, d)
	}
	return ""
}

// under: the text read through a conversion is the text under the converted range, or a failure.
func under(conv bool, s, e int, text, got string, ok bool) string {
	if !ok {
		if conv && s >= 0 && s <= e && e <= len(text) {
			return fmt.Sprintf("failure although the range converts to %d-%d inside %q", s, e, text)
		}
		return ""
	}
	if !conv {
		return fmt.Sprintf("%q although the conversion failed", got)
	}
	if s < 0 || s > e || e > len(text) || text[s:e] != got {
		return fmt.Sprintf("%q although the range converts to %d-%d of %q", got, s, e, text)
	}
	return ""
}

func checkN04(r *Run) {
	all := func(build func() *NS, m MS) string {
		n := build()
		text := m.Text()
		al := m.ByteAligns()
		max := len(text)
		if len(m.Orig) > max {
			max = len(m.Orig)
		}
		for a := -1; a <= max+2; a++ {
			for b := -1; b <= max+2; b++ {
				if d := checkRange(n, m, al, text, a, b); d != "" {
					return d
				}
			}
		}
		r.trans.Add(int64(max+4) * int64(max+4) * 2)
		return cmpAll(n, m) // querying changes nothing
	}
	stateSpaces(r, all)
	long04 := func(c *C, n *NS, m MS) {
		text := m.Text()
		al := m.ByteAligns()
		pts := func(n int) []int {
			return []int{-1, 0, 1, 2, 3, n / 3, n / 2, n - 3, n - 2, n - 1, n, n + 1, 63, 64, 127, 128, 255, 256}
		}
		for _, a := range append(pts(len(text)), pts(len(m.Orig))...) {
			for _, b := range append(pts(len(text)), pts(len(m.Orig))...) {
				c.Step()
				if d := checkRange(n, m, al, text, a, b); d != "" {
					c.Fail("%s: %.400s", quoteTrunc(m.Orig), d)
				}
			}
		}
	}
	longStates(r, "long strings", fewSizes(r.Thorough), long04)
	grow(r, 0, func(c *C, n *NS, m MS, what string) { c.Logf("%s", what); long04(c, n, m) })
	hugeStates(r, func(c *C, n *NS, m MS) {
		text := m.Text()
		al := m.ByteAligns()
		L, O := len(text), len(m.Orig)
		for _, a := range []int{0, L / 2, L - 4, L - 1, O - 1, 65535, 65536} {
			for _, b := range []int{1, L/2 + 1, L - 1, L, L + 1, O, 65536, 65537} {
				c.Step()
				if d := checkRange(n, m, al, text, a, b); d != "" {
					c.Fail("%s: %s", quoteTrunc(m.Orig), lens(d))
				}
			}
		}
	})
}

// ---------------------------------------------------------------- N05

func checkSlices(n *NS, m MS, a, b int) string {
	text := m.Text()
	isB := func(s string, i int) bool {
		return i == 0 || i == len(s) || i > 0 && i < len(s) && s[i]&0xC0 != 0x80
	}
	// normalized
	s, ok := n.Slice(nsp.NewNormalizedRange(a, b))
	if ok && s == nil {
		return fmt.Sprintf("slice of normalized %d-%d reports success without a string", a, b)
	}
	aligned := isB(text, a) && isB(text, b)
	switch {
	case !aligned:
		if ok {
			return fmt.Sprintf("slice of normalized %d-%d of %q succeeds though out of bounds or inside a character", a, b, text)
		}
	case a > b:
		if ok {
			return fmt.Sprintf("slice of reversed normalized range %d-%d succeeds", a, b)
		}
	case a == b:
		if ok && s.Get() != "" {
			return fmt.Sprintf("slice of empty normalized range %d-%d holds %q", a, b, s.Get())
		}
	default:
		x, _ := m.cellAt(a)
		y, _ := m.cellAt(b)
		if !ok {
			return fmt.Sprintf("slice of normalized %d-%d of %q fails", a, b, text)
		}
		if d := cmpAll(s, mSliceN(m, x, y)); d != "" {
			return fmt.Sprintf("slice of normalized %d-%d of %s: %s", a, b, m, d)
		}
	}
	// original
	s, ok = n.Slice(nsp.NewOriginalRange(a, b))
	if ok && s == nil {
		return fmt.Sprintf("slice of original %d-%d reports success without a string", a, b)
	}
	aligned = isB(m.Orig, a) && isB(m.Orig, b)
	switch {
	case !aligned:
		if ok {
			return fmt.Sprintf("slice of original %d-%d of %q succeeds though out of bounds or inside a character", a, b, m.Orig)
		}
	case a > b:
		if ok {
			return fmt.Sprintf("slice of reversed original range %d-%d succeeds", a, b)
		}
	case a == b:
		if ok && s.GetOriginal() != "" {
			return fmt.Sprintf("slice of empty original range %d-%d holds %q", a, b, s.GetOriginal())
		}
	default:
		want := mSliceO(m, a, b)
		if len(want.Cells) == 0 {
			if ok && (s.Get() != "" || s.GetOriginal() != want.Orig) {
				return fmt.Sprintf("slice of original %d-%d of %s, where no normalized character lies, is %q of %q", a, b, m, s.Get(), s.GetOriginal())
			}
			break
		}
		if !ok {
			return fmt.Sprintf("slice of original %d-%d of %s fails", a, b, m)
		}
		if d := cmpAll(s, want); d != "" {
			return fmt.Sprintf("slice of original %d-%d of %s: %s", a, b, m, d)
		}
	}
	return ""
}

func checkN05(r *Run) {
	onState := func(build func() *NS, m MS) string {
		n := build()
		max := len(m.Text())
		if len(m.Orig) > max {
			max = len(m.Orig)
		}
		for a := -1; a <= max+2; a++ {
			for b := -1; b <= max+2; b++ {
				if d := checkSlices(n, m, a, b); d != "" {
					return d
				}
			}
		}
		r.trans.Add(int64(max+4) * int64(max+4) * 2)
		// the slice locates its original text in the root text
		o := n.OriginalOffsets()
		if m.Root[m.Shift:m.Shift+len(m.Orig)] != m.Orig || o.Start < 0 || o.End > len(m.Root) || o.Start > o.End || m.Root[o.Start:o.End] != n.GetOriginal() {
			return fmt.Sprintf("original offsets %d-%d do not locate %q in root %q", o.Start, o.End, n.GetOriginal(), m.Root)
		}
		return cmpAll(n, m)
	}
	stateSpaces(r, onState)
	// chains of slices: every range at every level, edits between
	mid := []Op{
		editOp("none", func(n *NS) {}, func(m MS) MS { return m }),
		editOp("Prepend", func(n *NS) { n.Prepend("é") }, func(m MS) MS { return mPrepend(m, "é") }),
		editOp("drop a", func(n *NS) { n.Filter(func(x rune) bool { return x != 'b' }) }, func(m MS) MS { return mFilter(m, func(x rune) bool { return x != 'b' }) }),
		editOp("widths", func(n *NS) { n.Map(widthSwap) }, func(m MS) MS { return mMap(m, widthSwap) }),
		insertFrontOp('H'),
	}
	depth := r.Pick(3, 4)
	r.Explore("slice chains", fmt.Sprintf("texts of %d distinct chars, %d nested slices of either referential with an edit before each", r.Pick(4, 5), depth), func(c *C) {
		L := r.Pick(4, 5)
		rs := make([]rune, L)
		pat := c.Choose(4)
		for i := range rs {
			rs[i] = widthRunes[[]int{0, 2, i % 2 * 2, i % 4}[pat]][i]
		}
		n, m := newReal(string(rs)), newMS(string(rs))
		for d := 0; d < depth; d++ {
			op := &mid[c.Choose(len(mid))]
			m, _ = op.Model(m)
			if pm := try(func() { op.Real(n) }); pm != "" || cmpAll(n, m) != "" {
				c.Skip()
			}
			c.Logf("%s", op.Name)
			if len(m.Cells) == 0 {
				c.Skip()
			}
			if c.Bool() {
				i := c.Choose(len(m.Cells))
				j := i + 1 + c.Choose(len(m.Cells)-i)
				a, b := m.offsetOf(i), m.offsetOf(j)
				want := mSliceN(m, i, j)
				c.Logf("Slice normalized %d-%d", a, b)
				s, ok := n.Slice(nsp.NewNormalizedRange(a, b))
				if !ok {
					c.Fail("slice of normalized %d-%d of %s fails", a, b, m)
				}
				n, m = s, want
			} else {
				st := charStarts(m.Orig)
				if len(st) < 2 {
					c.Skip()
				}
				i := c.Choose(len(st) - 1)
				j := i + 1 + c.Choose(len(st)-1-i)
				want := mSliceO(m, st[i], st[j])
				c.Logf("Slice original %d-%d", st[i], st[j])
				s, ok := n.Slice(nsp.NewOriginalRange(st[i], st[j]))
				if len(want.Cells) == 0 {
					c.Skip()
				}
				if !ok {
					c.Fail("slice of original %d-%d of %s fails", st[i], st[j], m)
				}
				n, m = s, want
			}
			c.Step()
			if d := cmpAll(n, m); d != "" {
				c.Fail("%s", d)
			}
		}
		c.State(m.Key())
	})
	long05 := func(c *C, n *NS, m MS) {
		L, O := len(m.Text()), len(m.Orig)
		pts := func(n int) []int {
			return []int{0, 1, 3, 8, n / 2, n - 4, n - 3, n - 1, n, 255, 258}
		}
		as := append(pts(L), pts(O)...)
		a := as[c.Choose(len(as))]
		for _, b := range as {
			c.Step()
			if d := checkSlices(n, m, a, b); d != "" {
				c.Fail("%s: %.300s", quoteTrunc(m.Orig), d)
			}
		}
	}
	longStates(r, "long strings", fewSizes(r.Thorough), long05)
	grow(r, 0, func(c *C, n *NS, m MS, what string) { c.Logf("%s", what); long05(c, n, m) })
	hugeStates(r, func(c *C, n *NS, m MS) {
		L, O := len(m.Text()), len(m.Orig)
		for _, a := range []int{0, L - 3, L - 1, O - 1, 65535} {
			for _, b := range []int{1, L, O, 65536} {
				c.Step()
				if d := checkSlices(n, m, a, b); d != "" {
					c.Fail("%s: %s", quoteTrunc(m.Orig), lens(d))
				}
			}
		}
	})
}

// ---------------------------------------------------------------- N07

// inverse gives the expected original alignments.
func inverse(m MS) [][2]int {
	out := make([][2]int, len(m.Orig))
	for i := range out {
		out[i] = [2]int{-1, -1}
	}
	pos := 0
	for _, c := range m.Cells {
		l := len(string(c.R))
		for q := c.S; q < c.E; q++ {
			if out[q][0] < 0 {
				out[q][0] = pos
			}
			out[q][1] = pos + l
		}
		pos += l
	}
	// removed characters: where their text would have been = after everything derived from earlier characters
	k, seen := 0, false
	for _, c := range m.Cells {
		if c.S == c.E && !seen {
			k += len(string(c.R)) // inserted in front of everything
			continue
		}
		seen = true
		break
	}
	if len(m.Cells) == 0 {
		k = 0
	}
	for q := range out {
		if out[q][0] >= 0 {
			k = out[q][1]
		} else {
			out[q] = [2]int{k, k}
		}
	}
	return out
}

func inverseDiff(n *NS, m MS) string {
	want := inverse(m)
	before := snapshotNoInv(n)
	got := alignPairs(n.OriginalAlignments())
	if len(got) != len(want) {
		return fmt.Sprintf("%s: %d original alignments for %d original bytes", m, len(got), len(want))
	}
	for i := range want {
		if got[i] != want[i] {
			return fmt.Sprintf("%.200s: original byte %d maps to normalized %d-%d, expected %d-%d", m.String(), i, got[i][0], got[i][1], want[i][0], want[i][1])
		}
	}
	again := alignPairs(n.OriginalAlignments())
	for i := range got {
		if again[i] != got[i] {
			return fmt.Sprintf("%s: recomputing gives a different result at byte %d", m, i)
		}
	}
	if after := snapshotNoInv(n); after != before {
		return fmt.Sprintf("recomputing the original alignments changed the string from %s to %s", before, after)
	}
	return ""
}

func checkN07(r *Run) {
	stateSpaces(r, func(build func() *NS, m MS) string { r.trans.Add(1); return inverseDiff(build(), m) })
	longStates(r, "long strings", sizes(r.Thorough), func(c *C, n *NS, m MS) {
		if d := inverseDiff(n, m); d != "" {
			c.Fail("%.400s", d)
		}
	})
	grow(r, 0, func(c *C, n *NS, m MS, what string) {
		if d := inverseDiff(n, m); d != "" {
			c.Fail("%s: %.300s", what, d)
		}
	})
	hugeStates(r, func(c *C, n *NS, m MS) {
		if d := inverseDiff(n, m); d != "" {
			c.Fail("%s", lens(d))
		}
	})
}
