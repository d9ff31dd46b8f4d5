package main

// Z01-Z03: normalizers against cell-level references.

import (
	"fmt"
	"unicode"

	nsp "github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/normalizers"
	"github.com/nlpodyssey/gotokenizers/normalizers/bertnormalizer"
	"github.com/nlpodyssey/gotokenizers/normalizers/lowercasenormalizer"
	"github.com/nlpodyssey/gotokenizers/normalizers/sequencenormalizer"
	"github.com/nlpodyssey/gotokenizers/normalizers/stripnormalizer"
)

func init() {
	register("Z01", "all 16 switch combinations x every Unicode scalar value in context x every text over one representative per class up to the length bound, after every prior edit; text and alignment of every character compared with hand-written classes", checkZ01,
		"general categories come from the Go library's Unicode tables; white space and CJK blocks are listed by hand")
	register("Z02", "all switch combinations x every Unicode scalar value at the edges and inside x every text over white space of every width up to the length bound, after every prior edit", checkZ02)
	register("Z03", "every list of members up to the length bound, nested in every way, with a failure injected at every position; calls, order, error and text compared with running the members by hand", checkZ03)
}

// mNorm is a normalizer with its meaning.
type mNorm struct {
	name string
	make func() normalizers.Normalizer
	eff  func(m MS) MS
}

func isCJK(r rune) bool {
	for _, b := range [][2]rune{{0x4E00, 0x9FFF}, {0x3400, 0x4DBF}, {0x20000, 0x2A6DF}, {0x2A700, 0x2B73F}, {0x2B740, 0x2B81F}, {0x2B820, 0x2CEAF}, {0xF900, 0xFAFF}, {0x2F800, 0x2FA1F}} {
		if r >= b[0] && r <= b[1] {
			return true
		}
	}
	return false
}

func mBert(m MS, clean, cjk, accents, lower bool) MS {
	var out []Cell
	for _, c := range m.Cells {
		r := c.R
		if clean {
			if r == 0 || r == 0xFFFD || r != '\t' && r != '\n' && r != '\r' && unicode.Is(unicode.Categories["C"], r) {
				continue
			}
			if uniSpace(r) {
				r = ' '
			}
		}
		add := []rune{r}
		if cjk && isCJK(r) {
			add = []rune{' ', r, ' '}
		}
		for _, x := range add {
			if accents && unicode.Is(unicode.Categories["Mn"], x) {
				continue
			}
			if lower {
				x = unicode.ToLower(x)
			}
			out = append(out, Cell{x, c.S, c.E})
		}
	}
	return m.with(out)
}

func normBert(k int) mNorm {
	a, b, c, d := k&1 > 0, k&2 > 0, k&4 > 0, k&8 > 0
	return mNorm{fmt.Sprintf("bert(clean=%v,cjk=%v,accents=%v,lower=%v)", a, b, c, d),
		func() normalizers.Normalizer {
			if k == 15 {
				return bertnormalizer.DefaultBertNormalizer()
			}
			return bertnormalizer.NewBertNormalizer(a, b, c, d)
		},
		func(m MS) MS { return mBert(m, a, b, c, d) }}
}

func mStrip(m MS, left, right bool) MS {
	i, j := 0, len(m.Cells)
	for left && i < j && uniSpace(m.Cells[i].R) {
		i++
	}
	for right && j > i && uniSpace(m.Cells[j-1].R) {
		j--
	}
	return m.with(append([]Cell{}, m.Cells[i:j]...))
}

func normStrip(l, r bool) mNorm {
	return mNorm{fmt.Sprintf("strip(%v,%v)", l, r), func() normalizers.Normalizer { return stripnormalizer.NewStripNormalizer(l, r) }, func(m MS) MS { return mStrip(m, l, r) }}
}

func normLower() mNorm {
	return mNorm{"lowercase", func() normalizers.Normalizer { return lowercasenormalizer.NewLowerCaseNormalizer() }, func(m MS) MS { return mMap(m, unicode.ToLower) }}
}

// normOne runs a normalizer on n, whose model is m.
func (c *C) normOne(nm *mNorm, n *NS, m MS, what string) {
	var err error
	if pm := try(func() { err = nm.make().Normalize(n) }); pm != "" {
		c.Fail("%s on %s: %s", nm.name, what, pm)
	}
	c.Step()
	if err != nil {
		c.Fail("%s on %s returns error %v", nm.name, what, err)
	}
	w := nm.eff(m)
	if d := cmpAll(n, w); d != "" {
		c.Fail("%s on %s: %.500s", nm.name, what, d)
	}
	if c.traceOn {
		c.Logf("%s on %s => %s", nm.name, what, quoteTrunc(n.Get()))
	}
}

func zOps() []Op {
	ops := []Op{editOp("as is", func(n *NS) {}, func(m MS) MS { return m }),
		editOp("widened", func(n *NS) { n.Map(widenMap) }, func(m MS) MS { return mMap(m, widenMap) }),
		editOp("without a", func(n *NS) { n.Filter(func(r rune) bool { return r != 'a' }) }, func(m MS) MS { return mFilter(m, func(r rune) bool { return r != 'a' }) }),
		editOp("prepended", func(n *NS) { n.Prepend(" 京") }, func(m MS) MS { return mPrepend(m, " 京") }),
		editOp("appended", func(n *NS) { n.Append("É\n") }, func(m MS) MS { return mAppend(m, "É\n") }),
		replaceRuneOp('京', " x"),
		sliceNOp(1, 0), sliceNOp(0, 1), sliceOOp(1, 0),
		// edits that keep the length
		editOp("in lower case", func(n *NS) { n.ToLower() }, func(m MS) MS { return mMap(m, unicode.ToLower) }),
		editOp("turned", func(n *NS) { n.Map(turn) }, func(m MS) MS { return mMap(m, turn) }),
		// characters that come from nothing
		insertFrontOp('É'), insertFrontOp('\u3000'), insertFrontOp('京'),
		// nothing left
		editOp("emptied", func(n *NS) { n.Filter(func(rune) bool { return false }) }, func(m MS) MS { return mFilter(m, func(rune) bool { return false }) }),
	}
	return ops
}

// turn changes characters into others of the same length.
func turn(r rune) rune {
	switch r {
	case 'a':
		return 'Z'
	case ' ':
		return 'b'
	case 'b':
		return ' '
	case 'É':
		return '\u0301'
	case '\u3000':
		return '京'
	case '京':
		return '\u3000'
	}
	return r
}

func zSpaces(r *Run, norms []mNorm, alpha []rune, n, longN int, units []string) {
	ops := zOps()
	r.Explore("texts", fmt.Sprintf("all texts of <=%d characters over %d representatives x %d configurations", n, len(alpha), len(norms)), func(c *C) {
		s := c.Text(alpha, n)
		m := newMS(s)
		for i := range norms {
			c.normOne(&norms[i], newReal(s), m, fmt.Sprintf("%q", s))
		}
		c.State(s)
	})
	r.Explore("edited texts", fmt.Sprintf("all texts of <=%d characters x %d prior edits x %d configurations", n-1, len(ops), len(norms)), func(c *C) {
		s := c.Text(alpha, n-1)
		op := &ops[c.Choose(len(ops))]
		m, ok := op.Model(newMS(s))
		if !ok {
			c.Skip()
		}
		for i := range norms {
			var real *NS
			var err error
			if pm := try(func() { real, err = op.Real(newReal(s)) }); pm != "" || err != nil || cmpAll(real, m) != "" {
				c.Skip()
			}
			c.normOne(&norms[i], real, m, fmt.Sprintf("%q %s", s, op.Name))
		}
		c.State(m.Key())
	})
	r.Explore("code points", fmt.Sprintf("every Unicode scalar value alone, doubled and between others x %d configurations", len(norms)), func(c *C) {
		b := c.Choose(nBlocks)
		for x := rune(b * 256); x < rune(b*256+256); x++ {
			if !validRune(x) {
				continue
			}
			k := string(x)
			s := k + "A" + k + k + " é" + k
			m := newMS(s)
			for i := range norms {
				c.normOne(&norms[i], newReal(s), m, fmt.Sprintf("%q", s))
			}
			for i := range norms {
				if i%5 == int(x)%5 {
					c.normOne(&norms[i], newReal(k), newMS(k), fmt.Sprintf("%q", k))
				}
			}
		}
	})
	sz := fewSizes(r.Thorough)
	r.Explore("long texts", fmt.Sprintf("pre + unit^n + post, %d units, %d sizes", len(units), len(sz)), func(c *C) {
		u := units[c.Choose(len(units))]
		s := longText([]string{"", "京\u0301", " "}[c.Choose(3)], u, sz[c.Choose(len(sz))], []string{"", "É", "\u3000"}[c.Choose(3)])
		if len(s) > longN && !r.Thorough {
			c.Skip()
		}
		i := c.Choose(len(norms))
		c.normOne(&norms[i], newReal(s), newMS(s), quoteTrunc(s))
	})
	r.Explore("mixed texts", "an isolated character of each representative at positions of a long run", func(c *C) {
		n := sz[c.Choose(len(sz))]
		if n > 130 {
			c.Skip()
		}
		base := []string{"a", "京", " "}[c.Choose(3)]
		x := alpha[c.Choose(len(alpha))]
		i := c.Choose(len(norms))
		for pos := 0; pos <= n; pos++ {
			if pos > 3 && pos < n-3 && pos%11 != 0 {
				continue
			}
			s := longText("", base, pos, string(x)) + longText("", base, n-pos, "")
			c.normOne(&norms[i], newReal(s), newMS(s), quoteTrunc(s))
		}
	})
}

func checkZ01(r *Run) {
	var norms []mNorm
	for k := 0; k < 16; k++ {
		norms = append(norms, normBert(k))
	}
	alpha := []rune{'a', 'É', '京', ' ', '\t', 0, 0xFFFD, '\u0301', '\u3000', '\u200d', '𠀀', 'İ', '\ue000', '\u1e9e'}
	zSpaces(r, norms, alpha, r.Pick(3, 4), 700, []string{"a", "É", "京", "a京", "\u0301", "é\u0301", "\t", "\x00", "\x01A", "𠀀", " ", "ΑΣ"})
	r.Explore("longer texts", fmt.Sprintf("all texts of %d characters over letter, ideograph, accent, control, space", r.Pick(5, 7)), func(c *C) {
		s := c.TextN([]rune("É京\u0301\x01 "), r.Pick(5, 7))
		m := newMS(s)
		for i := range norms {
			c.normOne(&norms[i], newReal(s), m, fmt.Sprintf("%q", s))
		}
	})
	hugeZ(r, []mNorm{norms[15], norms[1], norms[2], norms[4], norms[8]})
	pairsNorm(r, norms, true)
}

func checkZ02(r *Run) {
	norms := []mNorm{normStrip(false, false), normStrip(true, false), normStrip(false, true), normStrip(true, true), normLower()}
	alpha := []rune{'a', 'É', '京', ' ', '\n', '\u3000', '\u0085', '𝔾', 'İ', '\u200b', 'Σ', '\u2028', 'ǅ'}
	zSpaces(r, norms, alpha, r.Pick(4, 5), 1500, []string{"a", "É", "京", " ", "\u3000", " \n", "a ", "Σ", "İ", "\u00a0\u3000", "Ⅷ"})
	r.Explore("longer texts", fmt.Sprintf("all texts of <=%d characters over white space of three widths and letters", r.Pick(6, 8)), func(c *C) {
		s := c.Text([]rune(" \u00a0\u3000É"), r.Pick(6, 8))
		m := newMS(s)
		for i := range norms {
			c.normOne(&norms[i], newReal(s), m, fmt.Sprintf("%q", s))
		}
	})
	hugeZ(r, norms)
	pairsNorm(r, norms, false)
}

// ---------------------------------------------------------------- Z03

type scriptNorm struct {
	id    int
	log   *[]int
	op    func(n *NS)
	fail  error
	after bool // edits before failing
}

func (s *scriptNorm) Normalize(n *nsp.NormalizedString) error {
	*s.log = append(*s.log, s.id)
	if s.fail != nil && !s.after {
		return s.fail
	}
	s.op(n)
	return s.fail
}

type scriptedErr int

func (e scriptedErr) Error() string { return fmt.Sprint("scripted ", int(e)) }

// normalizers of types that cannot be compared
type funcNorm func(n *NS) error

func (f funcNorm) Normalize(n *nsp.NormalizedString) error { return f(n) }

type listNorm struct {
	ids []int
	log *[]int
}

func (l listNorm) Normalize(n *nsp.NormalizedString) error {
	*l.log = append(*l.log, l.ids...)
	n.Map(widenMap)
	return nil
}

func checkZ03(r *Run) {
	real := []mNorm{normLower(), normStrip(true, true), normStrip(true, false), normBert(15), normBert(2), normBert(4)}
	type member struct {
		name string
		mk   func(log *[]int, id int) normalizers.Normalizer
		eff  func(m MS) MS
		err  error
	}
	var kit []member
	for _, x := range real {
		x := x
		kit = append(kit, member{x.name, func(log *[]int, id int) normalizers.Normalizer {
			n := x.make()
			return &scriptNorm{id: id, log: log, op: func(s *NS) { n.Normalize(s) }}
		}, x.eff, nil})
	}
	nReal := len(kit)
	script := func(name string, op func(n *NS), eff func(m MS) MS) {
		kit = append(kit, member{name, func(log *[]int, id int) normalizers.Normalizer { return &scriptNorm{id: id, log: log, op: op} }, eff, nil})
	}
	script("prepend x ", func(n *NS) { n.Prepend("x ") }, func(m MS) MS { return mPrepend(m, "x ") })
	script("append é", func(n *NS) { n.Append("é") }, func(m MS) MS { return mAppend(m, "é") })
	e1, e2 := scriptedErr(1), scriptedErr(2)
	kit = append(kit,
		member{"fails", func(log *[]int, id int) normalizers.Normalizer {
			return &scriptNorm{id: id, log: log, op: func(*NS) {}, fail: e1}
		}, func(m MS) MS { return m }, e1},
		member{"edits then fails", func(log *[]int, id int) normalizers.Normalizer {
			return &scriptNorm{id: id, log: log, op: func(n *NS) { n.Prepend("京") }, fail: e2, after: true}
		}, func(m MS) MS { return mPrepend(m, "京") }, e2})
	txt := []string{"", " A京 ", "É\u0301 a", "\n", "京", "ABC"}
	run := func(c *C, nest func(c *C, ns []normalizers.Normalizer) normalizers.Normalizer, depth int, kit []member) {
		s := txt[c.Choose(len(txt))]
		k := c.Choose(depth + 1)
		var log, want []int
		var ns []normalizers.Normalizer
		m := newMS(s)
		var wantErr error
		names := ""
		for i := 0; i < k; i++ {
			x := &kit[c.Choose(len(kit))]
			ns = append(ns, x.mk(&log, i))
			names += x.name + "; "
			if wantErr == nil {
				want = append(want, i)
				m = x.eff(m)
				wantErr = x.err
			}
		}
		seq := nest(c, ns)
		n := newReal(s)
		var err error
		if pm := try(func() { err = seq.Normalize(n) }); pm != "" {
			c.Fail("sequence [%s] on %q: %s", names, s, pm)
		}
		c.Step()
		c.Logf("sequence [%s] on %q => %q %v", names, s, n.Get(), err)
		if fmt.Sprint(log) != fmt.Sprint(want) {
			c.Fail("sequence [%s] on %q ran members %v, expected %v", names, s, log, want)
		}
		if err != wantErr {
			c.Fail("sequence [%s] on %q returns %v, expected %v", names, s, err, wantErr)
		}
		if d := cmpAll(n, m); d != "" {
			c.Fail("sequence [%s] on %q: %s", names, s, d)
		}
		// once more: nothing is remembered
		log, n = nil, newReal(s)
		if pm := try(func() { err = seq.Normalize(n) }); pm != "" {
			c.Fail("sequence [%s] on %q, second use: %s", names, s, pm)
		}
		if fmt.Sprint(log) != fmt.Sprint(want) || err != wantErr || cmpAll(n, m) != "" {
			c.Fail("sequence [%s] on %q, second use: ran %v, error %v, text %q", names, s, log, err, n.Get())
		}
		c.State(names + s)
	}
	flat := func(c *C, ns []normalizers.Normalizer) normalizers.Normalizer {
		return sequencenormalizer.NewSequenceNormalizer(ns)
	}
	r.Explore("sequences", fmt.Sprintf("6 texts x all lists of <=%d of %d members", r.Pick(4, 5), len(kit)), func(c *C) { run(c, flat, r.Pick(4, 5), kit) })
	// nested: every way to group consecutive members, optionally with empty groups
	r.Explore("nested sequences", fmt.Sprintf("all lists of <=%d of 6 members x every grouping, groups of groups, empty groups", r.Pick(3, 4)), func(c *C) {
		nest := func(c *C, ns []normalizers.Normalizer) normalizers.Normalizer {
			var top []normalizers.Normalizer
			for i := 0; i < len(ns); {
				if c.Bool() {
					top = append(top, sequencenormalizer.NewSequenceNormalizer(nil))
				}
				j := i + 1 + c.Choose(len(ns)-i)
				switch {
				case j == i+1 && c.Bool():
					top = append(top, ns[i])
				default:
					g := normalizers.Normalizer(sequencenormalizer.NewSequenceNormalizer(ns[i:j:j]))
					if c.Bool() {
						g = sequencenormalizer.NewSequenceNormalizer([]normalizers.Normalizer{g})
					}
					top = append(top, g)
				}
				i = j
			}
			return sequencenormalizer.NewSequenceNormalizer(top)
		}
		run(c, nest, r.Pick(3, 4), append(append([]member{}, kit[0], kit[1], kit[3]), kit[nReal:]...))
	})
	r.Explore("repeated members", fmt.Sprintf("all lists of <=%d picks from 4 instances, some of a type that cannot be compared, the same instance as often as wished", r.Pick(5, 6)), func(c *C) {
		var log, want []int
		pool := []normalizers.Normalizer{
			&scriptNorm{id: 0, log: &log, op: func(n *NS) { n.Append("é") }},
			&scriptNorm{id: 1, log: &log, op: func(n *NS) { n.Prepend("x ") }},
			funcNorm(func(n *NS) error { log = append(log, 2); n.Append("京"); return nil }),
			listNorm{ids: []int{3}, log: &log},
		}
		eff := []func(m MS) MS{func(m MS) MS { return mAppend(m, "é") }, func(m MS) MS { return mPrepend(m, "x ") }, func(m MS) MS { return mAppend(m, "京") },
			func(m MS) MS { return mMap(m, widenMap) }}
		s := txt[c.Choose(2)]
		m := newMS(s)
		k := c.Choose(r.Pick(5, 6) + 1)
		var ns []normalizers.Normalizer
		for i := 0; i < k; i++ {
			x := c.Choose(len(pool))
			ns = append(ns, pool[x])
			want = append(want, x)
			m = eff[x](m)
		}
		n := newReal(s)
		var err error
		if pm := try(func() { err = sequencenormalizer.NewSequenceNormalizer(ns).Normalize(n) }); pm != "" {
			c.Fail("sequence of instances %v on %q: %s", want, s, pm)
		}
		c.Step()
		if err != nil || fmt.Sprint(log) != fmt.Sprint(want) {
			c.Fail("sequence of instances %v on %q: ran %v, error %v", want, s, log, err)
		}
		if d := cmpAll(n, m); d != "" {
			c.Fail("sequence of instances %v on %q: %s", want, s, d)
		}
		c.State(fmt.Sprint(want, s))
	})
	r.Explore("shared lists", fmt.Sprintf("3 sequences built from overlapping parts of one caller's list of <=%d members, some of them sequences; the list stays as it is and each sequence runs its own part", r.Pick(4, 5)), func(c *C) {
		var log []int
		k := 1 + c.Choose(r.Pick(4, 5))
		var list []normalizers.Normalizer
		var does [][]int // ids each element runs
		id := 0
		leaf := func() *scriptNorm {
			x := id
			id++
			return &scriptNorm{id: x, log: &log, op: func(n *NS) { n.Append(string(rune('b' + x))) }}
		}
		for i := 0; i < k; i++ {
			first := id
			switch t := c.Choose(4); t {
			case 0:
				list = append(list, leaf())
			case 1, 2:
				var in []normalizers.Normalizer
				for q := 0; q < t; q++ {
					in = append(in, leaf())
				}
				list = append(list, sequencenormalizer.NewSequenceNormalizer(in))
			case 3:
				list = append(list, sequencenormalizer.NewSequenceNormalizer(nil))
			}
			var d []int
			for q := first; q < id; q++ {
				d = append(d, q)
			}
			does = append(does, d)
		}
		cut := c.Choose(k + 1)
		mid := c.Choose(cut + 1)
		keep := append([]normalizers.Normalizer{}, list...)
		parts := [][2]int{{0, k}, {0, cut}, {mid, k}}
		var seqs []normalizers.Normalizer
		for _, p := range parts {
			seqs = append(seqs, sequencenormalizer.NewSequenceNormalizer(list[p[0]:p[1]]))
		}
		c.Step()
		for i := range keep {
			if keep[i] != list[i] {
				c.Fail("building sequences from a list of %d changed its element %d", k, i)
			}
		}
		for round := 0; round < 2; round++ {
			for q, p := range parts {
				var want []int
				m := newMS("A")
				for _, d := range does[p[0]:p[1]] {
					for _, x := range d {
						want = append(want, x)
						m = mAppend(m, string(rune('b'+x)))
					}
				}
				log = nil
				n := newReal("A")
				var err error
				if pm := try(func() { err = seqs[q].Normalize(n) }); pm != "" || err != nil {
					c.Fail("sequence over elements %v of %v: %s %v", p, does, pm, err)
				}
				if fmt.Sprint(log) != fmt.Sprint(want) {
					c.Fail("sequence over elements %v of %v ran %v, expected %v", p, does, log, want)
				}
				if d := cmpAll(n, m); d != "" {
					c.Fail("sequence over elements %v of %v: %s", p, does, d)
				}
			}
		}
		c.State(fmt.Sprint(does, parts))
	})
	r.Explore("long sequences", "n members, failing at each position or nowhere", func(c *C) {
		n := []int{1, 2, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257}[c.Choose(21)]
		at := c.Choose(n + 1)
		var log []int
		var ns []normalizers.Normalizer
		m := newMS("A")
		for i := 0; i < n; i++ {
			i := i
			sn := &scriptNorm{id: i, log: &log, op: func(x *NS) { x.Append(string(rune('b' + i%20))) }}
			if i == at {
				sn.fail = e1
			}
			if i < at {
				m = mAppend(m, string(rune('b'+i%20)))
			}
			ns = append(ns, sn)
		}
		x := newReal("A")
		err := sequencenormalizer.NewSequenceNormalizer(ns).Normalize(x)
		c.Step()
		wantN, wantErr := n, error(nil)
		if at < n {
			wantN, wantErr = at+1, e1
		}
		if len(log) != wantN || err != wantErr {
			c.Fail("%d members, failing at %d: %d ran, error %v", n, at, len(log), err)
		}
		for i := range log {
			if log[i] != i {
				c.Fail("%d members: ran %v", n, log)
			}
		}
		if d := cmpAll(x, m); d != "" {
			c.Fail("%d members, failing at %d: %.300s", n, at, d)
		}
	})
	hugeZ03(r)
}
