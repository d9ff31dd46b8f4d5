package main

// Structured texts and lists around the sizes at which 12-, 15- and 16-bit
// quantities overflow, added to the checks of most properties. Every space is
// enumerated completely.

import (
	"fmt"
	"strings"

	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/models/wordpiecemodel"
	nsp "github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/normalizers"
	"github.com/nlpodyssey/gotokenizers/normalizers/sequencenormalizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/strutils"
)

func hugeSizes(r *Run) []int {
	if r.Thorough {
		return []int{4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32766, 32767, 32768, 32769, 65533, 65534, 65535, 65536, 65537, 65538, 70001, 131071, 131073}
	}
	return []int{4096, 8193, 16385, 32767, 32768, 65535, 65536, 65537, 70001}
}

// hugeText is a text of size bytes (plus the tail): filler to the exact size, then a unit over and over.
func hugeText(unit string, size int, post string) string {
	return strings.Repeat("x", size%len(unit)) + strings.Repeat(unit, size/len(unit)) + post
}

func (c *C) hugeText(r *Run, units ...string) string {
	sz := hugeSizes(r)
	u := units[c.Choose(len(units))]
	n := sz[c.Choose(len(sz))]
	return hugeText(u, n, []string{"", " bÉ京"}[c.Choose(2)])
}

func hugeBound(r *Run) string {
	return fmt.Sprintf("structured texts of %v bytes", hugeSizes(r))
}

func opsNamed(ops []Op, names ...string) []Op {
	var out []Op
	for _, o := range ops {
		for _, n := range names {
			if o.Name == n {
				out = append(out, o)
			}
		}
	}
	if len(out) != len(names) {
		fatalf("operations %v: found %d", names, len(out))
	}
	return out
}

func hugeOps() []Op {
	return append(opsNamed(reachOps(true), "Filter(drop a)", "Map(a>é é>a 京>x)", "Prepend(\"é京\")", "TransformRange([0,0),insert 'H')", "SliceNorm(front-1,back-0 chars)", "SliceOrig(front-0,back-1 chars)"),
		editOp("none", func(n *NS) {}, func(m MS) MS { return m }),
		tailOp(), Op{"slice of the last 3 characters", func(n *NS) (*NS, error) {
			rs := []rune(n.Get())
			s, ok := n.Slice(nsp.NewNormalizedRange(n.Len()-len(string(rs[len(rs)-3:])), n.Len()))
			if !ok {
				return nil, fmt.Errorf("slice failed")
			}
			return s, nil
		}, func(m MS) (MS, bool) { return mSliceN(m, len(m.Cells)-3, len(m.Cells)), true }})
}

// tailOp exchanges the last character for two others.
func tailOp() Op {
	return Op{"TransformRange(last)", func(n *NS) (*NS, error) {
		rs := []rune(n.Get())
		l := len(string(rs[len(rs)-1]))
		n.TransformRange(nsp.NewNormalizedRange(n.Len()-l, n.Len()), []nsp.RuneChange{{Rune: 'Ω', Change: 0}, {Rune: 'w', Change: 1}}, 0)
		return n, nil
	}, func(m MS) (MS, bool) {
		k := len(m.Cells) - 1
		x := m.Cells[k]
		return m.with(append(append([]Cell{}, m.Cells[:k]...), Cell{'Ω', x.S, x.E}, Cell{'w', x.S, x.E})), true
	}}
}

// hugeEdits is the huge space of N01 and N02.
func hugeEdits(r *Run, align bool) {
	ops := append(editOps(true), tailOp())
	r.Explore("huge texts", hugeBound(r)+fmt.Sprintf(", %d edits, then an edit of the last character", len(ops)), func(c *C) {
		s := c.hugeText(r, "a", "京", "É ")
		o := &ops[c.Choose(len(ops))]
		n, m := newReal(s), newMS(s)
		for _, o := range []*Op{o, &ops[len(ops)-1]} {
			m, _ = o.Model(m)
			n, _ = o.Real(n)
			c.Step()
			if d := judge(n, m, "", nil, align); d != "" {
				c.Fail("%s of %s: %.300s", o.Name, quoteTrunc(s), d)
			}
			if len(m.Cells) == 0 {
				return
			}
		}
	})
}

func hugeStates(r *Run, f func(c *C, n *NS, m MS)) {
	ops := hugeOps()
	firsts := opsNamed(ops, "SliceNorm(front-1,back-0 chars)", "SliceOrig(front-0,back-1 chars)", "Prepend(\"é京\")", "Map(a>é é>a 京>x)")
	seconds := opsNamed(ops, "Filter(drop a)", "TransformRange([0,0),insert 'H')", "SliceNorm(front-1,back-0 chars)", "TransformRange(last)")
	r.Explore("huge strings, two operations", fmt.Sprintf("structured texts around 65536 bytes, %d x %d operations", len(firsts), len(seconds)), func(c *C) {
		sz := []int{65535, 65540, 66001, 131080}
		if !r.Thorough {
			sz = sz[1:3]
		}
		u := []string{"京", "aé ", "京京京京aé"}[c.Choose(3)]
		s := hugeText(u, sz[c.Choose(len(sz))], []string{"", "bÉa"}[c.Choose(2)])
		n, m := newReal(s), newMS(s)
		for _, op := range []*Op{&firsts[c.Choose(len(firsts))], &seconds[c.Choose(len(seconds))]} {
			var ok bool
			if m, ok = op.Model(m); !ok {
				c.Skip()
			}
			var err error
			if pm := try(func() { n, err = op.Real(n) }); pm != "" || err != nil || n == nil || len(m.Cells) < 4 || cmpAll(n, m) != "" {
				c.Skip()
			}
		}
		c.Step()
		f(c, n, m)
	})
	r.Explore("huge strings", hugeBound(r)+fmt.Sprintf(", %d operations", len(ops)), func(c *C) {
		s := c.hugeText(r, "a", "京", "aé ")
		op := &ops[c.Choose(len(ops))]
		m := newMS(s)
		m, ok := op.Model(m)
		if !ok {
			c.Skip()
		}
		n := newReal(s)
		var err error
		if pm := try(func() { n, err = op.Real(n) }); pm != "" || err != nil || n == nil || cmpAll(n, m) != "" {
			c.Skip()
		}
		c.Step()
		f(c, n, m)
	})
}

func hugeN03(r *Run) {
	r.Explore("huge scripts", hugeBound(r)+", a script over the first, the middle, the last characters or everything", func(c *C) {
		s := c.hugeText(r, "a", "京", "é𝔾")
		if c.Bool() { // different characters where a truncated count would land
			s = "aé京" + s + "𝔾éa"
		}
		n, m := newReal(s), newMS(s)
		L := len(m.Cells)
		rg := [][2]int{{0, 2}, {L / 2, L/2 + 2}, {L - 2, L}, {0, L}, {1, L - 1}}[c.Choose(5)]
		rem := c.Choose(3)
		var sc []nsp.RuneChange
		kind := c.Choose(5)
		if kind == 3 {
			if rem = rg[1] - rg[0] - 5; rem < 0 {
				c.Skip()
			}
		}
		for q := rg[1] - rg[0] - rem; q > 0; {
			switch kind {
			case 0:
				sc = append(sc, nsp.RuneChange{Rune: 'x', Change: 0})
				q--
			case 1:
				sc = append(sc, nsp.RuneChange{Rune: '京', Change: 0}, nsp.RuneChange{Rune: 'é', Change: 1})
				q--
			case 2:
				sc = append(sc, nsp.RuneChange{Rune: 'z', Change: 1}, nsp.RuneChange{Rune: 'y', Change: -(q - 1)})
				q = 0
			case 3: // all but a few removed in front, those replaced one by one
				sc = append(sc, nsp.RuneChange{Rune: 'é', Change: 0})
				q--
			case 4: // all but a few dropped after a replacement, those replaced one by one
				d := 0
				if len(sc) == 0 && q > 5 {
					d = q - 5
				}
				sc = append(sc, nsp.RuneChange{Rune: 'ё', Change: -d})
				q -= 1 + d
			}
		}
		a, b := m.offsetOf(rg[0]), m.offsetOf(rg[1])
		want := applyScript(m, rg[0], rg[1], rem, sc)
		n.TransformRange(nsp.NewNormalizedRange(a, b), sc, rem)
		c.Step()
		if d := cmpAll(n, want); d != "" {
			c.Fail("TransformRange[%d,%d) removed %d kind %d on %s: %.300s", a, b, rem, kind, quoteTrunc(s), d)
		}
	})
}

func hugeN06(r *Run) {
	creates, edits := poolCreates(), poolEdits()
	var eds []poolEdit
	for _, e := range edits {
		if !strings.HasPrefix(e.name, "Replace") {
			eds = append(eds, e)
		}
	}
	eds = eds[:r.Pick(4, len(eds))]
	r.Explore("huge pools", hugeBound(r)+", 1 creation, 1 edit of any member", func(c *C) {
		s := c.hugeText(r, "a", "京")
		if L := len(s); L > 10000 && L < 65000 && !r.Thorough {
			c.Skip()
		}
		n := newReal(s)
		c.poolRun([]*NS{n}, []string{"root"}, creates[:5], eds, 1, 1, 2, true)
	})
}

// hugeMarked is a long text in which the mark appears at a few places only.
func (c *C) hugeMarked(r *Run, mark string) string {
	sz := hugeSizes(r)
	n := sz[c.Choose(len(sz))]
	u := []string{"a", "京", "é "}[c.Choose(3)]
	at := c.Choose(4)
	switch at {
	case 0:
		return mark + hugeText(u, n-len(mark), mark)
	case 1:
		return hugeText(u, n-len(mark), mark)
	case 2:
		return hugeText(u, n/2, mark) + hugeText(u, n-n/2-len(mark)-2, "") + mark + mark
	}
	return hugeText(u, n, "")
}

func hugePats(mark string) []Pat {
	return []Pat{patRune('#'), patString(mark), patString("##"), patRegexp("#+"), patRegexp2("#", 0), patFunc("is #", func(x rune) bool { return x == '#' })}
}

func hugeN08(r *Run) {
	r.Explore("huge texts", hugeBound(r)+", a few matches, 6 patterns, 5 replacements", func(c *C) {
		s := c.hugeMarked(r, "#")
		ps := hugePats("#京")
		p := &ps[c.Choose(len(ps))]
		n, m := newReal(s), newMS(s)
		if !trusted(p, s) {
			c.Skip()
		}
		ct := []string{"", "x", "京é"}[c.Choose(3)]
		want := mReplace(m, cellMatches(m, p.Segs(s)), ct)
		err := n.Replace(p.Make(), ct)
		c.Step()
		if err != nil {
			c.Fail("error %v", err)
		}
		if d := cmpAll(n, want); d != "" {
			c.Fail("%s: Replace %s by %q: %.300s", quoteTrunc(s), p.Name, ct, d)
		}
	})
}

func hugeN09(r *Run) {
	r.Explore("huge texts", hugeBound(r)+", a few matches or a match at every character, all modes", func(c *C) {
		var s string
		var p Pat
		if c.Bool() {
			s = c.hugeMarked(r, "#")
			ps := hugePats("#京")
			p = ps[c.Choose(len(ps))]
		} else {
			s = c.hugeText(r, "a", "a京")
			p = []Pat{patRune('a'), patFunc("all", func(rune) bool { return true })}[c.Choose(2)]
		}
		if !trusted(&p, s) {
			c.Skip()
		}
		n := newReal(s)
		mode := c.Choose(5)
		got, err := n.Split(p.Make(), modes[mode].b)
		spans := splitSpans(p.Segs(s), mode)
		c.Step()
		if err != nil || len(got) != len(spans) {
			c.Fail("%s: Split %s %s: %d pieces (error %v), expected %d", quoteTrunc(s), p.Name, modes[mode].name, len(got), err, len(spans))
		}
		for i, sp := range spans {
			if sp[0] == sp[1] {
				continue
			}
			w := MS{Root: s, Orig: s[sp[0]:sp[1]], Shift: sp[0]}
			w.Cells = newMS(w.Orig).Cells
			if d := cmpAll(got[i], w); d != "" {
				c.Fail("%s: Split %s %s: piece %d of %d: %.300s", quoteTrunc(s), p.Name, modes[mode].name, i, len(spans), d)
			}
		}
	})
}

func hugeS(r *Run, meaning bool) {
	r.Explore("huge texts", hugeBound(r)+", a few matches or one at every character", func(c *C) {
		var s string
		var p Pat
		if c.Bool() {
			s = c.hugeMarked(r, "#")
			ps := hugePats("#京")
			p = ps[c.Choose(len(ps))]
		} else {
			s = c.hugeText(r, "a", "a京", "é")
			p = []Pat{patRune('a'), patFunc("all", func(rune) bool { return true }), patRegexp("a"), patString("a"), patString("a京"), patRegexp(""), patRegexp2("a", 0)}[c.Choose(7)]
			if strings.HasPrefix(p.Name, "Regexp2") && len(s) > 10000 && !r.Thorough {
				c.Skip() // the library's work grows with the square of the number of matches
			}
		}
		if c.Bool() {
			p = inverted(p, 1)
		}
		c.Step()
		if d := patJudge(&p, s, meaning); d != "" {
			c.Fail("%s", d)
		}
	})
}

// hugeP: very many splits.
func hugeP(r *Run, after func(c *C, p *ptsRun, name string)) {
	sz := hugeSizes(r)
	r.Explore("very many splits", fmt.Sprintf("%v splits, tokens on every third or none, then every kind of step, some split into two", sz), func(c *C) {
		n := sz[c.Choose(len(sz))]
		u := []string{"a", "京"}[c.Choose(2)]
		s := strings.Repeat(u, n)
		tokd := c.Bool()
		p := newPts(c, s)
		cells := p.splits[0].m
		var next []mSplit
		try(func() {
			p.real.Split(func(_ int, x *NS) ([]pretokenizedstring.Split, error) {
				rs := make([]pretokenizedstring.Split, n)
				next = make([]mSplit, n)
				for i := range rs {
					y, ok := x.Slice(nsp.NewNormalizedRange(i*len(u), i*len(u)+len(u)))
					if !ok {
						c.Skip()
					}
					rs[i].NormalizedString = y
					next[i].m = mSliceN(cells, i, i+1)
					if tokd && i%3 == 0 {
						t := []models.Token{{ID: i, Value: "t", Offsets: strutils.ByteOffsets{Start: 0, End: len(u)}}}
						rs[i].Tokens = &t
						next[i].tokd, next[i].toks = true, t
					}
				}
				return rs, nil
			})
		})
		p.splits = next
		c.Step()
		after(c, p, "Split")
		k := 0
		adv := func() *mSplit {
			for k < len(p.splits) && p.splits[k].tokd {
				k++
			}
			if k == len(p.splits) {
				c.Fail("one callback too many")
			}
			k++
			return &p.splits[k-1]
		}
		var err error
		pm := ""
		switch c.Choose(3) {
		case 0:
			pm = try(func() {
				err = p.real.Normalize(func(n *NS) error {
					s := adv()
					f := func(rune) rune { return 'é' }
					n.Map(f)
					s.m = mMap(s.m, f)
					return nil
				})
			})
			for ; k < len(p.splits); k++ {
				if !p.splits[k].tokd {
					c.Fail("split %d is not normalized", k)
				}
			}
		case 1:
			pm = try(func() {
				err = p.real.Tokenize(func(n *NS) ([]models.Token, error) {
					s := adv()
					s.tokd, s.toks = true, []models.Token{{ID: k, Value: n.Get(), Offsets: strutils.ByteOffsets{Start: 0, End: n.Len()}}, {ID: -k, Value: "", Offsets: strutils.ByteOffsets{Start: 0, End: n.Len()}}}
					return append([]models.Token{}, s.toks...), nil
				})
			})
		case 2:
			j := 0
			var out []mSplit
			pm = try(func() {
				err = p.real.Split(func(i int, n *NS) ([]pretokenizedstring.Split, error) {
					for j < i && p.splits[j].tokd {
						out = append(out, p.splits[j])
						j++
					}
					if i != j {
						c.Fail("callback for position %d, expected %d", i, j)
					}
					j++
					if i%4 == 1 {
						return nil, nil
					}
					out = append(out, p.splits[i])
					return []pretokenizedstring.Split{{NormalizedString: n}}, nil
				})
			})
			p.splits = append(out, p.splits[j:]...)
		}
		if pm != "" || err != nil {
			c.Fail("error %v %s", err, pm)
		}
		c.Step()
		after(c, p, "second step")
	})
}

func hugeP01(c *C, p *ptsRun, name string) {
	if df := p.listDiff(); df != "" {
		c.Fail("%d splits, after %s: %.400s", len(p.splits), name, df)
	}
}

func hugeP04(r *Run) {
	hugeP(r, func(c *C, p *ptsRun, name string) {
		if p.listDiff() != "" {
			c.Skip()
		}
		e, err := p.real.IntoEncoding(-1, 1)
		c.Step()
		if d := p.encDiff(e, err, -1, 1); d != "" {
			c.Fail("%d splits: IntoEncoding: %.500s", len(p.splits), d)
		}
	})
	r.Explore("huge splits", hugeBound(r)+", edited, tokens at the start, in the middle and at the end", func(c *C) {
		s := c.hugeText(r, "a", "é", "a京")
		ops := hugeOps()
		op := &ops[c.Choose(len(ops))]
		m, ok := op.Model(newMS(s))
		n := newReal(s)
		var err error
		if pm := try(func() { n, err = op.Real(n) }); !ok || pm != "" || err != nil || len(m.Cells) < 3 || cmpAll(n, m) != "" {
			c.Skip()
		}
		L := len(m.Cells)
		var toks []models.Token
		for _, x := range [][2]int{{0, 1}, {L / 2, L/2 + 1}, {L - 2, L - 1}, {L - 1, L}, {0, L}} {
			toks = append(toks, models.Token{ID: x[0], Value: "t", Offsets: strutils.ByteOffsets{Start: m.offsetOf(x[0]), End: m.offsetOf(x[1])}})
		}
		p := &ptsRun{c: c, real: pretokenizedstring.FromNormalizedString(n), splits: []mSplit{{m, true, toks}}}
		if err := p.real.Tokenize(func(*NS) ([]models.Token, error) { return append([]models.Token{}, toks...), nil }); err != nil {
			c.Skip()
		}
		c.encode(p)
	})
}

// hugeT: pre-tokenizers on huge texts, with few and with very many pieces.
func hugeT(r *Run, pts []mPT) {
	r.Explore("huge texts, one special character", hugeBound(r)+fmt.Sprintf(" x %d configurations", len(pts)), func(c *C) {
		s := c.hugeSpecial(r, []string{" ", ".", "\u3000", "▁", "'s", "_"})
		i := c.Choose(len(pts))
		if s[0] > 0x7f && s[0] == "\u3000"[0] && strings.HasPrefix(s, "\u3000") && strings.HasPrefix(pts[i].name, "metaspace") {
			c.Skip() // outside the domain
		}
		if len(s) > 10000 && strings.Contains(pts[i].name, "(.,") {
			c.Skip() // the library's work grows with the square of the number of matches
		}
		c.ptOne(&pts[i], s)
	})
	r.Explore("huge texts", hugeBound(r)+fmt.Sprintf(" x %d configurations", len(pts)), func(c *C) {
		s := c.hugeText(r, "a", "京", "a ", "é▁", " ", ".1")
		i := c.Choose(len(pts))
		if meta := strings.HasPrefix(pts[i].name, "metaspace"); len(s) > 10000 && (meta || strings.HasPrefix(pts[i].name, "bytelevel") || strings.HasPrefix(pts[i].name, "whitespace(")) {
			if meta && (len(s) > 40000 || !r.Thorough) && !strings.ContainsAny(s[len(s)/2-6:len(s)/2+6], " ") {
				c.ptOne(&pts[i], s)
				return
			}
			if w := s[len(s)/2-6 : len(s)/2+6]; strings.ContainsAny(w, " .▁") && (len(s) > 40000 || !r.Thorough) {
				c.Skip() // the library's work grows with the square of the number of matches of such expressions
			}
		}
		c.ptOne(&pts[i], s)
	})
}

// hugeSpecial is a long plain text with one special character somewhere.
func (c *C) hugeSpecial(r *Run, specials []string) string {
	sz := hugeSizes(r)
	n := sz[c.Choose(len(sz))]
	x := specials[c.Choose(len(specials))]
	u := []string{"a", "京"}[c.Choose(2)]
	k := n / len(u)
	at := []int{0, 1, k / 2, k/2 + 1, k - 1, k}[c.Choose(6)]
	return strings.Repeat(u, at) + x + strings.Repeat(u, k-at)
}

func hugeZ(r *Run, norms []mNorm) {
	r.Explore("huge texts, one special character", hugeBound(r)+fmt.Sprintf(" x %d configurations", len(norms)), func(c *C) {
		s := c.hugeSpecial(r, []string{"\x01", "É", "\u0301", "東", "\u3000", "\uFFFD", "\t"})
		i := c.Choose(len(norms))
		c.normOne(&norms[i], newReal(s), newMS(s), quoteTrunc(s))
	})
	r.Explore("huge texts", hugeBound(r)+fmt.Sprintf(" x %d configurations", len(norms)), func(c *C) {
		s := c.hugeText(r, "a", "É", "京", " ", "a\u0301\t")
		i := c.Choose(len(norms))
		c.normOne(&norms[i], newReal(s), newMS(s), quoteTrunc(s))
	})
}

func hugeZ03(r *Run) {
	r.Explore("very long sequences", "n members, failing near the end or nowhere", func(c *C) {
		sz := hugeSizes(r)
		n := sz[c.Choose(len(sz))]
		at := []int{n - 1, n, 0, n / 2}[c.Choose(4)]
		ran, bad := 0, -1
		var ns []normalizers.Normalizer
		for i := 0; i < n; i++ {
			i := i
			ns = append(ns, funcNorm(func(*NS) error {
				if ran != i {
					bad = i
				}
				ran++
				if i == at {
					return errScripted
				}
				return nil
			}))
		}
		err := sequencenormalizer.NewSequenceNormalizer(ns).Normalize(newReal("A"))
		c.Step()
		want, wantErr := n, error(nil)
		if at < n {
			want, wantErr = at+1, errScripted
		}
		if ran != want || err != wantErr || bad >= 0 {
			c.Fail("%d members, failing at %d: %d ran (expected %d), error %v, out of order at %d", n, at, ran, want, err, bad)
		}
	})
}

func hugeM01(r *Run) {
	r.Explore("huge words", "words of very many characters that are one term, a few terms or unknown, limits next to their length", func(c *C) {
		sz := hugeSizes(r)
		n := sz[c.Choose(len(sz))]
		u := []string{"a", "京"}[c.Choose(2)]
		w := strings.Repeat(u, n)
		terms := []string{"[UNK]", "##z", "##" + u, w[:len(u)]}
		tail := ""
		switch c.Choose(4) {
		case 0:
			terms = append(terms, w)
		case 1: // the word without its last character, and the last
			terms = append(terms, w[:len(w)-len(u)])
		case 2:
			terms = append(terms, w)
			tail = "z"
		case 3: // the first character, then the rest
			terms = append(terms, "##"+w[len(u):])
			if n > 20000 && !r.Thorough {
				c.Skip()
			}
		}
		v := mkVocab(uniq(terms))
		if v == nil {
			c.Skip()
		}
		ids := idsOf(uniq(terms))
		L := n + len(tail)
		for _, l := range []int{L, L - 1, 1 << 40} {
			k := &wpConf{ids, "[UNK]", "##", l}
			var got []models.Token
			var err error
			if pm := try(func() { got, err = wordpiecemodel.New(v, k.unk, k.prefix, k.limit).Tokenize(w + tail) }); pm != "" {
				c.Fail("word of %d characters: %s", L, pm)
			}
			c.Step()
			want, wantErr := k.ref(w + tail)
			if d := toksDiff(got, err, want, wantErr); d != "" {
				c.Fail("word of %d characters, limit %d: %s", L, l, lens(d))
			}
		}
	})
}

func lens(s string) string {
	if len(s) > 300 {
		return s[:100] + "..." + s[len(s)-190:]
	}
	return s
}

// passes merges rank by rank; right when the result of a merge takes part in later ranks only.
func (t mTable) passes(syms []mSym) []mSym {
	for _, e := range t {
		var out []mSym
		for i := 0; i < len(syms); i++ {
			if i+1 < len(syms) && syms[i].id == e.l && syms[i+1].id == e.r {
				out = append(out, mSym{e.id, syms[i].s, syms[i+1].e})
				i++
			} else {
				out = append(out, syms[i])
			}
		}
		syms = out
	}
	return syms
}

func hugeM02(r *Run) {
	terms := []string{"a", "京", "a京", "aa", "aaaa", "aaaa京", "京京", "京京京京", "b"}
	ids := idsOf(terms)
	rev := revIDs(ids)
	ts := []mTable{tableOf(ids, 0, "a a", "aa aa", "京 京", "京京 京京", "aaaa 京"), tableOf(ids, 0, "a 京", "京 京", "a a")}
	for _, t := range ts {
		for _, w := range texts([]rune("a京"), 8) {
			if x := charSyms(w, ids); fmt.Sprint(t.merge(x)) != fmt.Sprint(t.passes(x)) {
				fatalf("passes differ from merging on %q", w)
			}
		}
	}
	r.Explore("huge words", "words of very many characters, a doubling and a pairing table", func(c *C) {
		sz := hugeSizes(r)
		n := sz[c.Choose(len(sz))]
		u := []string{"b", "a", "京", "aaaa京", "a京京"}[c.Choose(5)]
		w := strings.Repeat(u, n/len([]rune(u))) + []string{"", "京", "aaaa京b"}[c.Choose(3)]
		t := ts[c.Choose(2)]
		if u != "b" && n > 20000 && !(r.Thorough && (len(u) < 4 || n < 40000)) && !(n == 65537 && u == "a" && len(t) > 3 && w[len(w)-1] == 'a') {
			c.Skip() // the library's work grows with the square of the number of merges
		}
		v := mkVocab(terms)
		if v == nil {
			c.Skip()
		}
		var got []models.Token
		var err error
		if pm := try(func() { got, err = newBPE(v, t, 0, "", "", "", false).Tokenize(w) }); pm != "" {
			c.Fail("word %s: %s", quoteTrunc(w), pm)
		}
		c.Step()
		want := symToks(t.passes(charSyms(w, ids)), rev)
		if err != nil || len(got) != len(want) {
			c.Fail("word %s merges %v: %d tokens (error %v), expected %d", quoteTrunc(w), t, len(got), err, len(want))
		}
		for i := range want {
			if got[i] != want[i] {
				c.Fail("word %s merges %v: token %d is %v, expected %v", quoteTrunc(w), t, i, got[i], want[i])
			}
		}
	})
}

func hugeM03(r *Run) {
	r.Explore("huge words", "words of very many unknown, known and mixed characters, fused or not", func(c *C) {
		sz := hugeSizes(r)
		n := sz[c.Choose(len(sz))]
		u := []string{"a", "z", "東", "a東"}[c.Choose(4)]
		w := strings.Repeat(u, n/len([]rune(u))) + []string{"", "a"}[c.Choose(2)]
		terms := []string{"u", "a", "#a", "#a$", "a$"}
		v := mkVocab(terms)
		if v == nil {
			c.Skip()
		}
		ids := idsOf(terms)
		prefix, suffix := []string{"", "#"}[c.Choose(2)], []string{"", "$"}[c.Choose(2)]
		c.bpeConfCase(v, &bpeConf{ids, revIDs(ids), nil, "u", prefix, suffix, c.Bool()}, w)
	})
}
