package main

// Few original characters, much text derived from them: the counterpart of the long texts.

import (
	"fmt"
	"strings"
	"unicode/utf8"

	nsp "github.com/nlpodyssey/gotokenizers/normalizedstring"
)

// growSizes are the numbers of added characters.
func growSizes(r *Run, huge bool) []int {
	s := []int{1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 85, 86, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025}
	if r.Thorough {
		s = append(s, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 16385, 32767, 32768, 32769)
	} else {
		s = append(s, 4096, 4097)
	}
	if huge {
		s = append(s, 65535, 65536, 65537)
		if r.Thorough {
			s = append(s, 70001, 131071, 131072, 131073)
		}
	}
	return s
}

// insertAfterOp keeps character i (counted from the end when negative) and inserts k characters derived from it.
func insertAfterOp(i int, x rune, k int) Op {
	return Op{fmt.Sprintf("TransformRange(character %d, insert %d %q after it)", i, k, x),
		func(n *NS) (*NS, error) {
			rs := []rune(n.Get())
			p := i
			if p < 0 {
				p += len(rs)
			}
			if p < 0 || p >= len(rs) {
				return n, nil
			}
			sc := []nsp.RuneChange{{Rune: rs[p], Change: 0}}
			for q := 0; q < k; q++ {
				sc = append(sc, nsp.RuneChange{Rune: x, Change: 1})
			}
			a := len(string(rs[:p]))
			n.TransformRange(nsp.NewNormalizedRange(a, a+utf8.RuneLen(rs[p])), sc, 0)
			return n, nil
		},
		func(m MS) (MS, bool) {
			p := i
			if p < 0 {
				p += len(m.Cells)
			}
			if p < 0 || p >= len(m.Cells) {
				return m, false
			}
			out := append([]Cell{}, m.Cells[:p+1]...)
			for q := 0; q < k; q++ {
				out = append(out, Cell{x, m.Cells[p].S, m.Cells[p].E})
			}
			return m.with(append(out, m.Cells[p+1:]...)), true
		}}
}

// insertManyFrontOp inserts k characters with empty source at the very start.
func insertManyFrontOp(x rune, k int) Op {
	return Op{fmt.Sprintf("TransformRange([0,0),insert %d %q)", k, x),
		func(n *NS) (*NS, error) {
			var sc []nsp.RuneChange
			for q := 0; q < k; q++ {
				sc = append(sc, nsp.RuneChange{Rune: x, Change: 1})
			}
			n.TransformRange(nsp.NewNormalizedRange(0, 0), sc, 0)
			return n, nil
		},
		func(m MS) (MS, bool) {
			out := make([]Cell, 0, k+len(m.Cells))
			for q := 0; q < k; q++ {
				out = append(out, Cell{x, 0, 0})
			}
			return m.with(append(out, m.Cells...)), true
		}}
}

func growOps(x rune, k int) []Op {
	add := strings.Repeat(string(x), k)
	short := func(name string, o Op) Op { o.Name = name; return o }
	return []Op{
		short(fmt.Sprintf("Append(%q x %d)", x, k), editOp("", func(n *NS) { n.Append(add) }, func(m MS) MS { return mAppend(m, add) })),
		short(fmt.Sprintf("Prepend(%q x %d)", x, k), editOp("", func(n *NS) { n.Prepend(add) }, func(m MS) MS { return mPrepend(m, add) })),
		short(fmt.Sprintf("Replace('a',%q x %d)", x, k), replaceRuneOp('a', add)),
		insertAfterOp(0, x, k), insertAfterOp(-1, x, k), insertManyFrontOp(x, k),
	}
}

var growTexts = []string{"a", "é", "ab", "京a", "bab京", "京ba", ""}

// The kinds of growing operations a check judges itself; a wrong result of the others is another check's.
const (
	growAdd = 1 << iota
	growReplace
	growScript
)

// grow gives every text grown by one operation.
func grow(r *Run, own int, f func(c *C, n *NS, m MS, what string)) {
	sz := growSizes(r, true)
	notA := func(r rune) bool { return r != 'a' }
	pres := []Op{noOp(),
		editOp("Filter(drop a)", func(n *NS) { n.Filter(notA) }, func(m MS) MS { return mFilter(m, notA) }),
		editOp("Filter(drop 京)", func(n *NS) { n.Filter(isASCII) }, func(m MS) MS { return mFilter(m, isASCII) }),
		editOp("Map(widened)", func(n *NS) { n.Map(widenMap) }, func(m MS) MS { return mMap(m, widenMap) }),
		editOp("Prepend", func(n *NS) { n.Prepend("é") }, func(m MS) MS { return mPrepend(m, "é") }),
		sliceNOp(1, 0), sliceOOp(0, 1), insertFrontOp('H')}
	r.Explore("grown strings", fmt.Sprintf("%d short texts, fresh or (5 sizes) after one of 7 operations, each grown by one of 6 operations by n characters of two widths, %d sizes up to %d", len(growTexts), len(sz), sz[len(sz)-1]), func(c *C) {
		s := growTexts[c.Choose(len(growTexts))]
		k := sz[c.Choose(len(sz))]
		x := []rune{'x', '京'}[c.Choose(2)]
		if k > 30000 && x != 'x' && !r.Thorough {
			c.Skip()
		}
		pre := &pres[c.Choose(len(pres))]
		if pre != &pres[0] && !r.Thorough && (k != 17 && k != 65 && k != 130 && k != 300 && k != 1025 || x != 'x') {
			c.Skip()
		}
		ops := growOps(x, k)
		i := c.Choose(len(ops))
		op := &ops[i]
		mine := own&[]int{growAdd, growAdd, growReplace, growScript, growScript, growScript}[i] != 0
		m, ok := pre.Model(newMS(s))
		if !ok || pre != &pres[0] && len(m.Cells) == 0 {
			c.Skip()
		}
		n := newReal(s)
		var err error
		if pm := try(func() { n, err = pre.Real(n) }); pm != "" || err != nil || n == nil || cmpAll(n, m) != "" {
			c.Skip()
		}
		m, ok = op.Model(m)
		if !ok {
			c.Skip()
		}
		pm := try(func() { n, err = op.Real(n) })
		what := fmt.Sprintf("%s of %q (%s)", op.Name, s, pre.Name)
		if mine {
			if pm != "" || err != nil {
				c.Fail("%s: %s %v", what, pm, err)
			}
		} else if pm != "" || err != nil || n == nil || cmpAll(n, m) != "" {
			c.Skip()
		}
		c.Step()
		f(c, n, m, what)
	})
}

// growEdits judges a growing edit and an edit after any growing operation.
func growEdits(r *Run, align bool) {
	ops := append(editOps(true), tailOp())
	next := opsNamed(ops, "ToUpper", "Trim", "Prepend(\"é京\")", "Map(a>é é>a 京>x)")
	grow(r, growAdd, func(c *C, n *NS, m MS, what string) {
		if d := judge(n, m, "", nil, align); d != "" {
			c.Fail("%s: %.300s", what, d)
		}
		o := &next[c.Choose(len(next))]
		m, ok := o.Model(m)
		if !ok {
			c.Skip()
		}
		var err error
		if pm := try(func() { n, err = o.Real(n) }); pm != "" {
			c.Fail("%s, then %s: %s", what, o.Name, pm)
		}
		if d := judge(n, m, "", err, align); d != "" {
			c.Fail("%s, then %s: %.300s", what, o.Name, d)
		}
	})
}

// growAll judges text and alignments of one kind of growing operation, and of one more operation of that kind.
func growAll(r *Run, own int) {
	grow(r, own, func(c *C, n *NS, m MS, what string) {
		if d := cmpAll(n, m); d != "" {
			c.Fail("%s: %.300s", what, d)
		}
		if len(m.Cells) == 0 {
			return
		}
		next := replaceRuneOp('x', "é京")
		if own == growScript {
			next = insertAfterOp([]int{0, -1}[c.Choose(2)], 'Ω', 2)
		} else if len(m.Cells) > 5000 {
			return // quadratic
		}
		m, ok := next.Model(m)
		if !ok {
			c.Skip()
		}
		if pm := try(func() { n, _ = next.Real(n) }); pm != "" {
			c.Fail("%s, then %s: %s", what, next.Name, pm)
		}
		if d := cmpAll(n, m); d != "" {
			c.Fail("%s, then %s: %.300s", what, next.Name, d)
		}
	})
}
