package main

// P01-P04: pre-tokenized strings against a list-of-splits model.

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/nlpodyssey/gotokenizers/encodings"
	"github.com/nlpodyssey/gotokenizers/models"
	nsp "github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/strutils"
)

type PTS = pretokenizedstring.PreTokenizedString

func init() {
	register("P01", "every history of split/normalize/tokenize steps with every callback result, compared with a list-of-splits model: callbacks made, their order, positions and arguments, and the resulting list", checkP01)
	register("P02", "every history with a failure injected at every callback, then continued; compared with a list-of-splits model", checkP02)
	register("P03", "both views after every step of every history compared with the list-of-splits model", checkP03)
	register("P04", "encodings built after every history, with every token span, word index and type id, compared with the definition", checkP04)
}

// mSplit is a split of the model.
type mSplit struct {
	m    MS
	tokd bool
	toks []models.Token
}

type ptsRun struct {
	c      *C
	real   *PTS
	splits []mSplit
}

func newPts(c *C, s string) *ptsRun {
	return &ptsRun{c: c, real: pretokenizedstring.FromString(s), splits: []mSplit{{m: newMS(s)}}}
}

func (p *ptsRun) key() string {
	var b strings.Builder
	for _, s := range p.splits {
		fmt.Fprintf(&b, "%s%v%v;", s.m.Key(), s.tokd, s.toks)
	}
	return b.String()
}

func (p *ptsRun) String() string {
	var b strings.Builder
	for i, s := range p.splits {
		if i > 0 {
			b.WriteString(" | ")
		}
		fmt.Fprintf(&b, "%q", s.m.Text())
		if s.tokd {
			fmt.Fprintf(&b, "%v", s.toks)
		}
	}
	return b.String()
}

func sameToks(a, b []models.Token) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func tokDiff(real *[]models.Token, s mSplit) string {
	if (real != nil) != s.tokd {
		return fmt.Sprintf("tokens attached: %v, expected %v", real != nil, s.tokd)
	}
	if real != nil && !sameToks(*real, s.toks) {
		return fmt.Sprintf("tokens %v, expected %v", *real, s.toks)
	}
	return ""
}

// listDiff compares the real list of splits with the model.
func (p *ptsRun) listDiff() string {
	got := p.real.Splits()
	if len(got) != len(p.splits) {
		var g []string
		for _, x := range got {
			g = append(g, x.NormalizedString.Get())
		}
		return fmt.Sprintf("%d splits %q, expected %d: %s", len(got), g, len(p.splits), p)
	}
	for i, s := range p.splits {
		if d := cmpAll(got[i].NormalizedString, s.m); d != "" {
			return fmt.Sprintf("split %d: %s", i, d)
		}
		if d := tokDiff(got[i].Tokens, s); d != "" {
			return fmt.Sprintf("split %d: %s", i, d)
		}
	}
	return ""
}

func (p *ptsRun) viewDiff() string {
	for round := 0; round < 2; round++ {
		ob, nb := p.real.GetOriginalByteSplits(), p.real.GetNormalizedByteSplits()
		if len(ob) != len(p.splits) || len(nb) != len(p.splits) {
			return fmt.Sprintf("views list %d and %d splits, expected %d", len(ob), len(nb), len(p.splits))
		}
		pos := 0
		for i, s := range p.splits {
			t := s.m.Text()
			if ob[i].String != t || nb[i].String != t {
				return fmt.Sprintf("split %d: views show %q and %q, expected %q", i, ob[i].String, nb[i].String, t)
			}
			if w := (strutils.ByteOffsets{Start: s.m.Shift, End: s.m.Shift + len(s.m.Orig)}); ob[i].Offsets != w {
				return fmt.Sprintf("split %d %q: original view says %v, expected %v of %q", i, t, ob[i].Offsets, w, s.m.Root)
			}
			if w := (strutils.ByteOffsets{Start: pos, End: pos + len(t)}); nb[i].Offsets != w {
				return fmt.Sprintf("split %d %q: normalized view says %v, expected %v", i, t, nb[i].Offsets, w)
			}
			pos += len(t)
			if d := tokDiff(ob[i].Tokens, s); d != "" {
				return fmt.Sprintf("split %d: original view: %s", i, d)
			}
			if d := tokDiff(nb[i].Tokens, s); d != "" {
				return fmt.Sprintf("split %d: normalized view: %s", i, d)
			}
		}
	}
	return ""
}

// callLog records callbacks.
type callLog struct {
	want []string
	got  []string
}

// options of a run
type ptsOpts struct {
	fail     bool // failures may be injected
	inPlace  bool // split callbacks may edit their argument
	tokSpans bool // token spans are enumerated (P04)
	attach   bool // split callbacks may attach tokens
	strict   bool // callback sequence and list are asserted
	lean     bool // fewer callback results
}

var boundaryTok = models.Token{ID: 7, Value: "t", Offsets: strutils.ByteOffsets{Start: 0, End: 1}}

// chooseToks picks a token list for a split of text t.
func (c *C) chooseToks(t string, o *ptsOpts) []models.Token {
	if !o.tokSpans {
		switch c.Choose(3) {
		case 0:
			return []models.Token{}
		case 1:
			return []models.Token{{ID: len(t), Value: t, Offsets: strutils.ByteOffsets{Start: 0, End: len(t)}}}
		}
		if o.lean {
			c.Skip()
		}
		return nil
	}
	n := c.Choose(3)
	var out []models.Token
	for i := 0; i < n; i++ {
		a := c.Choose(len(t)+3) - 1
		b := a + c.Choose(len(t)+3-a)
		out = append(out, models.Token{ID: i + 3, Value: fmt.Sprint("v", i), Offsets: strutils.ByteOffsets{Start: a, End: b}})
	}
	return out
}

func (p *ptsRun) split(o *ptsOpts) (failed bool) {
	c := p.c
	pieces := func(m MS, n *NS, how int) ([]pretokenizedstring.Split, []mSplit) {
		var rs []pretokenizedstring.Split
		var ms []mSplit
		add := func(i, j int) {
			if i == j {
				s, ok := n.Slice(nsp.NewNormalizedRange(0, 0))
				if !ok {
					c.Skip()
				}
				rs = append(rs, pretokenizedstring.Split{NormalizedString: s})
				return
			}
			s, ok := n.Slice(nsp.NewNormalizedRange(m.offsetOf(i), m.offsetOf(j)))
			w := mSliceN(m, i, j)
			if !ok || cmpAll(s, w) != "" {
				c.Skip() // N05's business
			}
			rs = append(rs, pretokenizedstring.Split{NormalizedString: s})
			ms = append(ms, mSplit{m: w})
		}
		L := len(m.Cells)
		switch how {
		case 0: // itself
			rs = append(rs, pretokenizedstring.Split{NormalizedString: n})
			if L > 0 {
				ms = append(ms, mSplit{m: m})
			}
		case 1: // first character and the rest, which may be empty
			if L == 0 {
				c.Skip()
			}
			add(0, 1)
			add(1, L)
		case 2: // nothing
		case 3: // every character, with empties around
			add(0, 0)
			for i := 0; i < L; i++ {
				add(i, i+1)
			}
			add(0, 0)
		case 4: // last character only (the rest is lost)
			if L < 2 {
				c.Skip()
			}
			add(L-1, L)
		case 5: // tokens attached to the first of two pieces
			if L == 0 {
				c.Skip()
			}
			add(0, 1)
			add(1, L)
			t := []models.Token{boundaryTok}
			rs[0].Tokens = &t
			ms[0].tokd, ms[0].toks = true, t
		}
		return rs, ms
	}
	var next []mSplit
	log := callLog{}
	old := append([]mSplit{}, p.splits...)
	idx := 0 // next split the model expects a callback for
	failed = false
	var bad string
	ed := map[int]MS{}
	err := p.real.Split(func(i int, n *NS) ([]pretokenizedstring.Split, error) {
		for idx < len(old) && old[idx].tokd {
			next = append(next, old[idx])
			idx++
		}
		if failed {
			bad = fmt.Sprintf("the split function is called for position %d after it failed", i)
			return nil, errScripted
		}
		if idx >= len(old) || i != idx {
			bad = fmt.Sprintf("the split function is called with position %d, expected %d of %d", i, idx, len(old))
			return nil, errScripted
		}
		m := old[idx].m
		if d := cmpAll(n, m); d != "" {
			bad = fmt.Sprintf("position %d: the split function got %q: %s", i, n.Get(), d)
			return nil, errScripted
		}
		log.got = append(log.got, fmt.Sprint(i))
		nh := 5
		if o.attach {
			nh = 6
		}
		if o.lean {
			nh = 4
		}
		k := nh
		if o.inPlace {
			k++
		}
		if o.fail {
			k++
		}
		h := c.Choose(k)
		switch {
		case h < nh:
			rs, ms := pieces(m, n, h)
			c.Logf("split %d %q by rule %d", i, m.Text(), h)
			next = append(next, ms...)
			idx++
			return rs, nil
		case o.inPlace && h == nh:
			n.Prepend("京")
			m = mPrepend(m, "京")
			if cmpAll(n, m) != "" {
				c.Skip()
			}
			ed[idx] = m
			rs, ms := pieces(m, n, 3)
			c.Logf("split %d %q: Prepend, then every character", i, m.Text())
			next = append(next, ms...)
			idx++
			return rs, nil
		}
		failed = true
		rs, _ := pieces(m, n, 3)
		c.Logf("split %d %q fails", i, m.Text())
		return rs, errScripted
	})
	c.Step()
	if bad != "" {
		c.Fail("Split: %s", bad)
	}
	if failed {
		if err != errScripted {
			c.Fail("Split returns %v instead of the callback's error", err)
		}
		for i, m := range ed {
			p.splits[i].m = m // edited by an earlier callback itself
		}
		return true
	}
	if err != nil {
		c.Fail("Split returns error %v although no callback failed", err)
	}
	for idx < len(old) && old[idx].tokd {
		next = append(next, old[idx])
		idx++
	}
	if idx < len(old) {
		c.Fail("Split made no callback for position %d (%q)", idx, old[idx].m.Text())
	}
	p.splits = next
	return false
}

func (p *ptsRun) normalize(o *ptsOpts) (failed bool) {
	c := p.c
	idx := 0
	var bad string
	err := p.real.Normalize(func(n *NS) error {
		for idx < len(p.splits) && p.splits[idx].tokd {
			idx++
		}
		if failed {
			bad = "the normalization function is called after it failed"
			return nil
		}
		if idx >= len(p.splits) {
			bad = fmt.Sprintf("the normalization function is called once too often, with %q", n.Get())
			return nil
		}
		s := &p.splits[idx]
		if d := cmpAll(n, s.m); d != "" {
			bad = fmt.Sprintf("the normalization function got %q instead of split %d %q: %s", n.Get(), idx, s.m.Text(), d)
			return nil
		}
		k := 3
		if o.lean {
			k = 2
		}
		if o.fail {
			k++
		}
		h := c.Choose(k)
		if o.lean && h == 2 {
			h = 3
		}
		idx++
		switch h {
		case 0:
			n.Map(widenMap)
			s.m = mMap(s.m, widenMap)
		case 1:
			f := func(x rune) bool { return x != 'a' && x != 'é' }
			n.Filter(f)
			s.m = mFilter(s.m, f)
		case 2:
			n.Append("é")
			s.m = mAppend(s.m, "é")
		case 3:
			failed = true
			c.Logf("normalize split %d fails", idx-1)
			return errScripted
		}
		c.Logf("normalize split %d by %d => %q", idx-1, h, s.m.Text())
		if cmpAll(n, s.m) != "" {
			c.Skip()
		}
		return nil
	})
	c.Step()
	if bad != "" {
		c.Fail("Normalize: %s", bad)
	}
	if failed {
		if err != errScripted {
			c.Fail("Normalize returns %v instead of the callback's error", err)
		}
		return true
	}
	if err != nil {
		c.Fail("Normalize returns error %v although no callback failed", err)
	}
	for idx < len(p.splits) && p.splits[idx].tokd {
		idx++
	}
	if idx < len(p.splits) {
		c.Fail("Normalize skipped split %d %q", idx, p.splits[idx].m.Text())
	}
	return false
}

func (p *ptsRun) tokenize(o *ptsOpts) (failed bool) {
	c := p.c
	idx := 0
	var bad string
	err := p.real.Tokenize(func(n *NS) ([]models.Token, error) {
		for idx < len(p.splits) && p.splits[idx].tokd {
			idx++
		}
		if failed {
			bad = "the tokenization function is called after it failed"
			return nil, nil
		}
		if idx >= len(p.splits) {
			bad = fmt.Sprintf("the tokenization function is called once too often, with %q", n.Get())
			return nil, nil
		}
		s := &p.splits[idx]
		if d := cmpAll(n, s.m); d != "" {
			bad = fmt.Sprintf("the tokenization function got %q instead of split %d %q: %s", n.Get(), idx, s.m.Text(), d)
			return nil, nil
		}
		idx++
		if o.fail && c.Bool() {
			failed = true
			c.Logf("tokenize split %d fails", idx-1)
			return []models.Token{boundaryTok}, errScripted
		}
		t := c.chooseToks(s.m.Text(), o)
		s.tokd, s.toks = true, append([]models.Token{}, t...)
		c.Logf("tokenize split %d %q => %v", idx-1, s.m.Text(), t)
		return t, nil
	})
	c.Step()
	if bad != "" {
		c.Fail("Tokenize: %s", bad)
	}
	if failed {
		if err != errScripted {
			c.Fail("Tokenize returns %v instead of the callback's error", err)
		}
		return true
	}
	if err != nil {
		c.Fail("Tokenize returns error %v although no callback failed", err)
	}
	for idx < len(p.splits) && p.splits[idx].tokd {
		idx++
	}
	if idx < len(p.splits) {
		c.Fail("Tokenize skipped split %d %q", idx, p.splits[idx].m.Text())
	}
	return false
}

func (p *ptsRun) step(o *ptsOpts) (string, bool) {
	switch p.c.Choose(3) {
	case 0:
		return "Split", p.split(o)
	case 1:
		return "Normalize", p.normalize(o)
	}
	return "Tokenize", p.tokenize(o)
}

// start picks how the pre-tokenized string is made.
func startPts(c *C, s string) *ptsRun {
	switch c.Choose(3) {
	case 0:
		c.Logf("FromString(%q)", s)
		return newPts(c, s)
	case 1: // from an edited slice of a longer text: offsets relative to that text
		root := "京" + s + "é"
		n, ok := newReal(root).Slice(nsp.NewNormalizedRange(3, 3+len(s)))
		if s == "" {
			c.Skip()
		}
		m := newMS(root)
		m = mSliceN(m, 1, len(m.Cells)-1)
		if !ok || cmpAll(n, m) != "" {
			c.Skip()
		}
		c.Logf("FromNormalizedString(slice %q of %q)", s, root)
		return &ptsRun{c: c, real: pretokenizedstring.FromNormalizedString(n), splits: []mSplit{{m: m}}}
	}
	n, m := newReal(s), newMS(s)
	if pm := try(func() { n.Map(widenMap); n.Prepend("é") }); pm != "" {
		c.Skip()
	}
	m = mPrepend(mMap(m, widenMap), "é")
	if cmpAll(n, m) != "" {
		c.Skip()
	}
	c.Logf("FromNormalizedString(edited %q)", s)
	return &ptsRun{c: c, real: pretokenizedstring.FromNormalizedString(n), splits: []mSplit{{m: m}}}
}

var ptsTexts = []string{"", "a", "京", "aé", "京a", "a京é"}

func checkP01(r *Run) {
	o := &ptsOpts{inPlace: true, attach: true, strict: true}
	body := func(o *ptsOpts, txt []string, depth int) Body {
		return func(c *C) {
			p := startPts(c, txt[c.Choose(len(txt))])
			for d := 0; d < depth; d++ {
				name, _ := p.step(o)
				if df := p.listDiff(); df != "" {
					c.Fail("after %s: %s", name, df)
				}
				c.State(p.key())
				if len(p.splits) > 5 {
					c.Skip()
				}
			}
			c.Outcome(p.String())
		}
	}
	r.Explore("histories", fmt.Sprintf("6 texts, 3 starts, %d steps, every callback result", 2), body(o, ptsTexts, 2))
	lo := &ptsOpts{inPlace: true, attach: r.Thorough, lean: !r.Thorough}
	r.Explore("longer histories", "texts <=2 chars, 3 steps", body(lo, ptsTexts[:r.Pick(4, 5)], 3))
	r.Explore("deep histories, fewer callback results", fmt.Sprintf("texts of 2 chars, %d steps", r.Pick(4, 5)), body(&ptsOpts{lean: true}, []string{"aé", "京"}, r.Pick(4, 5)))
	many(r, func(c *C, p *ptsRun, name string) {
		if df := p.listDiff(); df != "" {
			c.Fail("after %s: %.400s", name, df)
		}
	})
	oddPts(r, func(c *C, p *ptsRun, name string) {
		if df := p.listDiff(); df != "" {
			c.Fail("after %s: %.400s", name, df)
		}
	})
	hugeP(r, hugeP01)
}

// many: long lists of splits, every kind of step, with tokens on a regular subset.
func many(r *Run, after func(c *C, p *ptsRun, name string)) {
	sz := fewSizes(r.Thorough)
	r.Explore("many splits", "unit^n split into pieces of 1, 5, 10 and 40 characters, tokens attached to every k-th, then each step", func(c *C) {
		u := []string{"a", "é京"}[c.Choose(2)]
		k := sz[c.Choose(len(sz))]
		w := []int{1, 5, 10, 40}[c.Choose(4)] // characters per split
		if k > 300 || w > 1 && k > 20 {
			c.Skip()
		}
		s := longText("", u, k*w, "b")
		p := newPts(c, s)
		every := []int{0, 2, 3, 7}[c.Choose(4)]
		var next []mSplit
		m := newMS(s)
		err := p.real.Split(func(_ int, n *NS) ([]pretokenizedstring.Split, error) {
			var rs []pretokenizedstring.Split
			for i := 0; i*w < len(m.Cells); i++ {
				a, b := i*w, i*w+w
				if b > len(m.Cells) {
					b = len(m.Cells)
				}
				x, ok := n.Slice(nsp.NewNormalizedRange(m.offsetOf(a), m.offsetOf(b)))
				w := mSplit{m: mSliceN(m, a, b)}
				if !ok || cmpAll(x, w.m) != "" {
					c.Skip()
				}
				sp := pretokenizedstring.Split{NormalizedString: x}
				if every > 0 && i%every == 0 {
					t := []models.Token{{ID: i, Value: x.Get(), Offsets: strutils.ByteOffsets{Start: 0, End: x.Len()}}}
					sp.Tokens = &t
					w.tokd, w.toks = true, t
				}
				rs = append(rs, sp)
				next = append(next, w)
			}
			return rs, nil
		})
		if err != nil {
			c.Fail("Split returns %v", err)
		}
		p.splits = next
		c.Step()
		after(c, p, "Split")
		// uniform second step
		kind := c.Choose(3)
		i := 0
		adv := func() *mSplit {
			for i < len(p.splits) && p.splits[i].tokd {
				i++
			}
			if i >= len(p.splits) {
				c.Fail("one callback too many")
			}
			i++
			return &p.splits[i-1]
		}
		switch kind {
		case 0:
			var out []mSplit
			j := 0
			err = p.real.Split(func(idx int, n *NS) ([]pretokenizedstring.Split, error) {
				for p.splits[j].tokd {
					out = append(out, p.splits[j])
					j++
				}
				if idx != j {
					c.Fail("callback for position %d, expected %d", idx, j)
				}
				sp := p.splits[j]
				j++
				if idx%5 == 4 {
					return nil, nil
				}
				out = append(out, sp)
				return []pretokenizedstring.Split{{NormalizedString: n}}, nil
			})
			for ; j < len(p.splits); j++ {
				out = append(out, p.splits[j])
			}
			p.splits = out
		case 1:
			err = p.real.Normalize(func(n *NS) error {
				s := adv()
				n.Map(widenMap)
				s.m = mMap(s.m, widenMap)
				return nil
			})
		case 2:
			cnt := 0
			err = p.real.Tokenize(func(n *NS) ([]models.Token, error) {
				s := adv()
				cnt++
				if cnt == 100 {
					s.tokd = false
					return nil, errScripted
				}
				t := []models.Token{{ID: cnt, Value: "w", Offsets: strutils.ByteOffsets{Start: 0, End: n.Len()}}, {ID: 0, Value: "z", Offsets: strutils.ByteOffsets{Start: 0, End: n.Len()}}}
				s.tokd, s.toks = true, t
				return t, nil
			})
			if err == errScripted && cnt >= 100 {
				err = nil
			} else if cnt >= 100 {
				c.Fail("Tokenize lost the error: %v", err)
			}
		}
		if err != nil {
			c.Fail("error %v", err)
		}
		c.Step()
		after(c, p, "second step")
	})
}

func checkP02(r *Run) {
	body := func(o *ptsOpts, txt []string, depth int) Body {
		return func(c *C) {
			p := startPts(c, txt[c.Choose(len(txt))])
			nf := 0
			for d := 0; d < depth; d++ {
				before := append([]mSplit{}, p.splits...)
				name, failed := p.step(o)
				if failed {
					nf++
					if name == "Split" {
						p.splits = before
					}
				}
				if df := p.listDiff(); df != "" {
					c.Fail("after %s (failed: %v): %s", name, failed, df)
				}
				if len(p.splits) > 5 {
					c.Skip()
				}
			}
			if nf == 0 {
				c.Skip()
			}
			c.State(p.key())
			c.Outcome(fmt.Sprint(nf, p))
		}
	}
	r.Explore("failures", "6 texts, 3 starts, 2 steps, every callback result or failure", body(&ptsOpts{fail: true}, ptsTexts, 2))
	r.Explore("failures, longer", fmt.Sprintf("texts <=2 chars, 3 steps"), body(&ptsOpts{fail: true, lean: !r.Thorough}, ptsTexts[:r.Pick(5, 5)], 3))
	r.Explore("failures, deep", fmt.Sprintf("2 texts, %d steps, fewer callback results", r.Pick(4, 5)), body(&ptsOpts{fail: true, lean: true}, []string{"aé", "京"}, r.Pick(4, 5)))
	many(r, func(c *C, p *ptsRun, name string) {
		if df := p.listDiff(); df != "" {
			c.Fail("after %s: %.400s", name, df)
		}
	})
	r.Explore("resume", "n splits tokenized one failure at a time", func(c *C) {
		n := 1 + c.Choose(r.Pick(6, 8))
		s := strings.Repeat("é", n)
		p := newPts(c, s)
		p.real.Split(func(_ int, x *NS) ([]pretokenizedstring.Split, error) {
			var rs []pretokenizedstring.Split
			p.splits = nil
			for i := 0; i < n; i++ {
				y, ok := x.Slice(nsp.NewNormalizedRange(2*i, 2*i+2))
				if !ok {
					c.Skip()
				}
				rs = append(rs, pretokenizedstring.Split{NormalizedString: y})
				p.splits = append(p.splits, mSplit{m: mSliceN(newMS(s), i, i+1)})
			}
			return rs, nil
		})
		o := &ptsOpts{fail: true, lean: true}
		for k := 0; k < 3; k++ {
			p.tokenize(o)
			if df := p.listDiff(); df != "" {
				c.Fail("%s", df)
			}
		}
	})
	hugeP(r, hugeP01)
}

func checkP03(r *Run) {
	view := func(c *C, p *ptsRun, name string) {
		if p.listDiff() != "" {
			c.Skip() // P01's business
		}
		if d := p.viewDiff(); d != "" {
			c.Fail("after %s: %.500s", name, d)
		}
		if d := p.listDiff(); d != "" {
			c.Fail("reading the views after %s changed the splits: %.400s", name, d)
		}
	}
	body := func(o *ptsOpts, txt []string, depth int) Body {
		return func(c *C) {
			p := startPts(c, txt[c.Choose(len(txt))])
			view(c, p, "start")
			for d := 0; d < depth; d++ {
				name := ""
				if pm := tryFail(func() { name, _ = p.step(o) }); pm != "" {
					c.Skip() // P01's business
				}
				view(c, p, name)
				c.State(p.key())
				if len(p.splits) > 5 {
					c.Skip()
				}
			}
			c.Outcome(p.String())
		}
	}
	o := &ptsOpts{inPlace: true, attach: true}
	r.Explore("histories", "6 texts, 3 starts, 2 steps, every callback result", body(o, ptsTexts, 2))
	lo := &ptsOpts{inPlace: true, attach: r.Thorough, lean: !r.Thorough}
	r.Explore("longer histories", "texts <=2 chars, 3 steps", body(lo, ptsTexts[:r.Pick(4, 5)], 3))
	r.Explore("deep histories, fewer callback results", fmt.Sprintf("texts of 2 chars, %d steps", r.Pick(4, 5)), body(&ptsOpts{lean: true}, []string{"aé", "京"}, r.Pick(4, 5)))
	r.Explore("failures", "6 texts, 2 steps with failures", func(c *C) {
		p := startPts(c, ptsTexts[c.Choose(len(ptsTexts))])
		for d := 0; d < 2; d++ {
			before := append([]mSplit{}, p.splits...)
			name := ""
			failed := false
			if pm := tryFail(func() { name, failed = p.step(&ptsOpts{fail: true}) }); pm != "" {
				c.Skip()
			}
			if failed && name == "Split" {
				p.splits = before
			}
			view(c, p, name)
		}
	})
	many(r, view)
	oddPts(r, view)
	hugeP(r, view)
}

// tryFail runs f, turning a Fail into a message.
func tryFail(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			if x, ok := e.(failure); ok {
				msg = x.msg
				return
			}
			if _, ok := e.(skipCase); ok {
				panic(e)
			}
			msg = fmt.Sprint(e)
		}
	}()
	f()
	return ""
}

// encDiff compares an encoding with the model's tokens.
func (p *ptsRun) encDiff(e *encodings.Encoding, err error, wordIndex, typeID int) string {
	all := true
	for _, s := range p.splits {
		all = all && s.tokd
	}
	if !all {
		if err == nil || e != nil {
			return fmt.Sprintf("an encoding is built although some split has no tokens: %s (error %v)", p, err)
		}
		return ""
	}
	if err != nil || e == nil {
		return fmt.Sprintf("no encoding (error %v) although all splits have tokens: %s", err, p)
	}
	n := 0
	for _, s := range p.splits {
		n += len(s.toks)
	}
	if e.Len() != n || e.IsEmpty() != (n == 0) || len(e.IDs) != n || len(e.TypeIDs) != n || len(e.Tokens) != n || len(e.Words) != n || len(e.Offsets) != n || len(e.SpecialTokensMask) != n || len(e.AttentionMask) != n || len(e.Overflowing) != 0 {
		return fmt.Sprintf("lengths differ from %d tokens: %+v", n, *e)
	}
	k := 0
	for i, s := range p.splits {
		al := s.m.ByteAligns()
		for _, t := range s.toks {
			w := wordIndex
			if w < 0 {
				w = i
			}
			if e.IDs[k] != t.ID || e.Tokens[k] != t.Value || e.TypeIDs[k] != typeID || e.Words[k] != w || e.SpecialTokensMask[k] != 0 || e.AttentionMask[k] != 1 {
				return fmt.Sprintf("token %d: id %d %q type %d word %d special %d attention %d; expected id %d %q type %d word %d 0 1",
					k, e.IDs[k], e.Tokens[k], e.TypeIDs[k], e.Words[k], e.SpecialTokensMask[k], e.AttentionMask[k], t.ID, t.Value, typeID, w)
			}
			a, b := t.Offsets.Start, t.Offsets.End
			if a < b {
				want := t.Offsets
				if a >= 0 && b <= len(al) {
					want = strutils.ByteOffsets{Start: s.m.Shift + al[a][0], End: s.m.Shift + al[b-1][1]}
				}
				if e.Offsets[k] != want {
					return fmt.Sprintf("token %d spanning %d-%d of split %s has offsets %v, expected %v", k, a, b, s.m, e.Offsets[k], want)
				}
			}
			k++
		}
	}
	return ""
}

func (c *C) encode(p *ptsRun) {
	if p.listDiff() != "" {
		c.Skip()
	}
	for _, w := range []int{-1, 0, 5, -2, math.MinInt64, math.MaxInt64} {
		for _, ty := range []int{0, 3, -1, math.MaxInt64} {
			if (w < -1 || w > 5 || ty > 3) && (w+ty)%2 == 0 {
				continue
			}
			e, err := p.real.IntoEncoding(w, ty)
			c.Step()
			if d := p.encDiff(e, err, w, ty); d != "" {
				c.Fail("IntoEncoding(%d,%d): %.500s", w, ty, d)
			}
		}
	}
	e1, err1 := p.real.IntoEncoding(-1, 1)
	e2, err2 := p.real.IntoEncoding(-1, 1)
	if (err1 == nil) != (err2 == nil) || !reflect.DeepEqual(e1, e2) {
		c.Fail("building the encoding twice gives %+v and %+v", e1, e2)
	}
	if d := p.listDiff(); d != "" {
		c.Fail("building an encoding changed the splits: %s", d)
	}
}

func checkP04(r *Run) {
	encodingsP04(r)
	r.Explore("histories", "6 texts, 3 starts, 2 steps then optionally tokenized completely, encoded after each step", func(c *C) {
		p := startPts(c, ptsTexts[c.Choose(len(ptsTexts))])
		o := &ptsOpts{inPlace: true, attach: true}
		for d := 0; d < r.Pick(2, 3); d++ {
			if pm := tryFail(func() { p.step(o) }); pm != "" {
				c.Skip()
			}
			if len(p.splits) > 5 {
				c.Skip()
			}
			c.encode(p)
			c.State(p.key())
		}
		c.Outcome(p.String())
	})
	r.Explore("deep histories", fmt.Sprintf("2 texts, %d steps", r.Pick(4, 5)), func(c *C) {
		p := startPts(c, []string{"aé", "京"}[c.Choose(2)])
		o := &ptsOpts{lean: true, fail: true}
		for d := 0; d < r.Pick(4, 5); d++ {
			before := append([]mSplit{}, p.splits...)
			name, failed := "", false
			if pm := tryFail(func() { name, failed = p.step(o) }); pm != "" {
				c.Skip()
			}
			if failed && name == "Split" {
				p.splits = before
			}
			c.encode(p)
		}
		c.State(p.key())
	})
	r.Explore("token spans", "texts <=3 chars, one step, then every pair of token spans from -1 to beyond the end", func(c *C) {
		p := startPts(c, ptsTexts[1+c.Choose(len(ptsTexts)-1)])
		o := &ptsOpts{lean: true, tokSpans: true}
		if pm := tryFail(func() {
			switch c.Choose(3) {
			case 0:
			case 1:
				p.normalize(o)
			case 2:
				c.splitFirst(p)
			}
			p.tokenize(o)
		}); pm != "" {
			c.Skip()
		}
		c.encode(p)
		c.State(p.key())
	})
	sz := fewSizes(r.Thorough)
	r.Explore("long splits", "one split of unit^n, edited, one token per normalized character", func(c *C) {
		u := []string{"a", "é", "a京"}[c.Choose(3)]
		s := longText("", u, sz[c.Choose(len(sz))], "")
		n, m := newReal(s), newMS(s)
		op := []Op{editOp("none", func(n *NS) {}, func(m MS) MS { return m }), editOp("widen", func(n *NS) { n.Map(widenMap) }, func(m MS) MS { return mMap(m, widenMap) }),
			editOp("drop", func(n *NS) { n.Filter(isASCII) }, func(m MS) MS { return mFilter(m, isASCII) })}[c.Choose(3)]
		m, _ = op.Model(m)
		if pm := try(func() { op.Real(n) }); pm != "" || cmpAll(n, m) != "" {
			c.Skip()
		}
		p := &ptsRun{c: c, real: pretokenizedstring.FromNormalizedString(n), splits: []mSplit{{m: m}}}
		var toks []models.Token
		pos := 0
		for i, x := range m.Cells {
			l := len(string(x.R))
			toks = append(toks, models.Token{ID: i, Value: string(x.R), Offsets: strutils.ByteOffsets{Start: pos, End: pos + l}})
			pos += l
		}
		toks = append(toks, models.Token{ID: -1, Value: "all", Offsets: strutils.ByteOffsets{Start: 0, End: pos}})
		p.splits[0].tokd, p.splits[0].toks = true, toks
		if err := p.real.Tokenize(func(*NS) ([]models.Token, error) { return toks, nil }); err != nil {
			c.Skip()
		}
		c.encode(p)
	})
	many(r, func(c *C, p *ptsRun, name string) { c.encode(p) })
	oddPts(r, func(c *C, p *ptsRun, name string) {
		if p.listDiff() != "" {
			c.Skip()
		}
		c.encode(p)
	})
	hugeP04(r)
}

// splitFirst splits off the first character.
func (c *C) splitFirst(p *ptsRun) {
	m := p.splits[0].m
	if len(m.Cells) < 2 {
		c.Skip()
	}
	err := p.real.Split(func(_ int, n *NS) ([]pretokenizedstring.Split, error) {
		a, ok1 := n.Slice(nsp.NewNormalizedRange(0, m.offsetOf(1)))
		b, ok2 := n.Slice(nsp.NewNormalizedRange(m.offsetOf(1), n.Len()))
		if !ok1 || !ok2 {
			c.Skip()
		}
		return []pretokenizedstring.Split{{NormalizedString: a}, {NormalizedString: b}}, nil
	})
	if err != nil {
		c.Skip()
	}
	p.splits = []mSplit{{m: mSliceN(m, 0, 1)}, {m: mSliceN(m, 1, len(m.Cells))}}
}
