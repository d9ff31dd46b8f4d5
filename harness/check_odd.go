package main

// Spaces that put every character of interest into every kind of string. The
// properties whose own spaces use a handful of characters get one each.

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/nlpodyssey/gotokenizers/models"
	nsp "github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/vocabulary"
)

// oddRunes are characters that code is likely to treat in a special way.
var oddRunes = []rune{0, 1, '\t', '\n', '\r', ' ', '"', '#', '$', '\'', '\\', 0x7F, 0x80, 0x85, 0xA0, 0xAD, 'ß', 'İ', 'ſ', 'ς', 0x301, 0x200B, 0x200C, 0x200D, 0x2028, 0x2029, '▁', '\u3000', 'K', 0xD7FF, 0xE000, 0xFE0F, 0xFEFF, 0xFFFC, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F468, 0x1F1E6, 0xE0041, 0x10FFFF}

// codePoints runs f for every Unicode scalar value; quick runs take every one of the
// first 0x3100 and of F900-FFFF and every 61st of the others.
func codePoints(r *Run, name, bound string, f func(c *C, x rune)) {
	r.Explore(name, "every scalar value"+map[bool]string{false: " below U+3100 and from U+F900 to U+FFFF, every 61st of the others", true: ""}[r.Thorough]+": "+bound, func(c *C) {
		b := c.Choose(nBlocks)
		for x := rune(b * 256); x < rune(b*256+256); x++ {
			if !validRune(x) || !r.Thorough && x >= 0x3100 && (x < 0xF900 || x > 0xFFFF) && x%61 != 0 {
				continue
			}
			f(c, x)
		}
	})
}

// oddText chooses an odd character and a text around it.
func (c *C) oddText() string {
	x := string(oddRunes[c.Choose(len(oddRunes))])
	switch c.Choose(7) {
	case 0:
		return x
	case 1:
		return "a" + x
	case 2:
		return x + "é"
	case 3:
		return "a" + x + "京"
	case 4:
		return x + x
	case 5:
		return "a" + x + x + "b"
	}
	return x + "京" + x
}

func noOp() Op { return editOp("none", func(n *NS) {}, func(m MS) MS { return m }) }

// oddStates gives the strings with odd characters to N04, N05 and N07.
func oddStates(r *Run, onState func(build func() *NS, m MS) string) {
	ops := append(reachOps(true), noOp())
	body := func(c *C, s string, op *Op) {
		build := func() (n *NS) {
			var err error
			if pm := try(func() { n, err = op.Real(newReal(s)) }); pm != "" || err != nil {
				return nil
			}
			return n
		}
		m, ok := op.Model(newMS(s))
		n := build()
		if !ok || n == nil || cmpAll(n, m) != "" {
			return
		}
		c.Step()
		c.State(m.Key())
		if d := onState(build, m); d != "" {
			c.Fail("%s of %q: %s", op.Name, s, d)
		}
	}
	r.Explore("odd characters", fmt.Sprintf("%d odd characters in 7 texts, %d operations", len(oddRunes), len(ops)), func(c *C) {
		body(c, c.oddText(), &ops[c.Choose(len(ops))])
	})
	none := noOp()
	codePoints(r, "code points", "between two others", func(c *C, x rune) { body(c, "a"+string(x)+"京", &none) })
}

func oddN03(r *Run) {
	r.Explore("odd characters", fmt.Sprintf("%d odd characters in 7 texts, every script with <=1 insertion over 3 characters, one of them odd", len(oddRunes)), func(c *C) {
		s := c.oddText()
		c.doScript(newReal(s), newMS(s), r.Pick(0, 1), []rune{'x', []rune(s)[0]}, s, "fresh")
	})
	codePoints(r, "code points", "replaced by, dropped with and inserted next to others", func(c *C, x rune) {
		s := "a" + string(x) + "京" + string(x)
		for k, sc := range [][]nsp.RuneChange{
			{{Rune: x, Change: 0}, {Rune: 'b', Change: 0}, {Rune: x, Change: 1}, {Rune: 'é', Change: -1}},
			{{Rune: 'y', Change: -1}, {Rune: x, Change: -1}},
			{{Rune: x, Change: 1}, {Rune: 'a', Change: -3}},
		} {
			n, m := newReal(s), newMS(s)
			want := applyScript(m, 0, 4, 0, sc)
			n.Transform(sc, 0)
			c.Step()
			if d := cmpAll(n, want); d != "" {
				c.Fail("U+%04X: script %d of %q: %s", x, k, s, d)
			}
		}
	})
	r.Explore("dropped runs", fmt.Sprintf("all texts of <=%d characters over 3 widths: one replacement dropping a run, the others kept, every removed prefix", r.Pick(6, 8)), func(c *C) {
		rs := []rune(c.Text([]rune("aé京"), r.Pick(6, 8)))
		L := len(rs)
		if L == 0 {
			c.Skip()
		}
		rem := c.Choose(L)
		at := rem + c.Choose(L-rem)
		drop := c.Choose(L - at)
		var sc []nsp.RuneChange
		for i := rem; i < at; i++ {
			sc = append(sc, nsp.RuneChange{Rune: rs[i], Change: 0})
		}
		sc = append(sc, nsp.RuneChange{Rune: []rune{'x', '京', rs[at]}[c.Choose(3)], Change: -drop})
		for i := at + drop + 1; i < L; i++ {
			sc = append(sc, nsp.RuneChange{Rune: rs[i], Change: 0})
		}
		n, m := newReal(string(rs)), newMS(string(rs))
		want := applyScript(m, 0, L, rem, sc)
		n.Transform(sc, rem)
		c.Step()
		if d := cmpAll(n, want); d != "" {
			c.Fail("%q: removed %d, script %v: %s", string(rs), rem, sc, d)
		}
	})
}

func oddN06(r *Run) {
	creates, edits := poolCreates(), poolEdits()
	r.Explore("odd characters", fmt.Sprintf("%d odd characters in 7 texts, 1 creation, 1 edit of any member", len(oddRunes)), func(c *C) {
		c.poolRun([]*NS{newReal(c.oddText())}, []string{"root"}, creates, edits, 1, 1, 4, false)
	})
}

func oddN08(r *Run) {
	pres := preEdits()[:r.Pick(3, 9)]
	r.Explore("odd characters", fmt.Sprintf("%d odd characters in 7 texts, %d earlier edits, every segmentation, replaced by odd and other texts", len(oddRunes), len(pres)), func(c *C) {
		s := c.oddText()
		n, m := c.prepared(s, &pres[c.Choose(len(pres))])
		if len(m.Cells) > 5 {
			c.Skip()
		}
		segs := c.chooseSegs(m.Text(), 0)
		c.replaceCase(n, m, &scriptedPattern{caps: toCaptures(segs)}, segs, []string{"", "x", s, string([]rune(s)[0]) + "é"}[c.Choose(4)], fmt.Sprintf("%q", s))
	})
	codePoints(r, "code points", "replaced, and as the replacement", func(c *C, x rune) {
		k := string(x)
		p := patRune(x)
		q := patString("é")
		for _, s := range []string{"a" + k + "é" + k + "京", k + "é"} {
			for i, p := range []*Pat{&p, &q} {
				if !trusted(p, s) {
					continue
				}
				ct := []string{"京a", k + "b"}[i]
				c.replaceCase(newReal(s), newMS(s), p.Make(), p.Segs(s), ct, fmt.Sprintf("%q", s))
			}
		}
	})
}

func oddN09(r *Run) {
	pres := preEdits()[:r.Pick(3, 9)]
	r.Explore("odd characters", fmt.Sprintf("%d odd characters in 7 texts, %d earlier edits, every segmentation, all modes", len(oddRunes), len(pres)), func(c *C) {
		s := c.oddText()
		n, m := c.prepared(s, &pres[c.Choose(len(pres))])
		if len(m.Cells) > 5 {
			c.Skip()
		}
		segs := c.chooseSegs(m.Text(), 0)
		c.splitCase(n, m, &scriptedPattern{caps: toCaptures(segs)}, segs, c.Choose(5), fmt.Sprintf("%q", s))
	})
	codePoints(r, "code points", "as the delimiter and around it, all modes", func(c *C, x rune) {
		k := string(x)
		s := k + "a" + k + k + "京"
		for i, p := range []Pat{patRune(x), patRune('a')} {
			if !trusted(&p, s) {
				continue
			}
			for m := range modes {
				c.splitCase(newReal(s), newMS(s), p.Make(), p.Segs(s), m, fmt.Sprintf("%q, pattern %d", s, i))
			}
		}
	})
}

// oddPts gives lists of splits of texts with odd characters, step by step.
func oddPts(r *Run, f func(c *C, p *ptsRun, name string)) {
	var txt []string
	for _, x := range oddRunes {
		txt = append(txt, string(x)+"a", "京"+string(x))
	}
	r.Explore("odd characters", fmt.Sprintf("%d odd characters in 2 texts, 3 starts, 2 steps", len(oddRunes)), func(c *C) {
		p := startPts(c, txt[c.Choose(len(txt))])
		o := &ptsOpts{lean: true}
		for d := 0; d < 2; d++ {
			name := ""
			if pm := tryFail(func() { name, _ = p.step(o) }); pm != "" || len(p.splits) > 5 {
				c.Skip()
			}
			f(c, p, name)
		}
	})
	codePoints(r, "code points", "each a split of its own, with a token", func(c *C, x rune) {
		s := "a" + string(x) + "京"
		p := newPts(c, s)
		m := p.splits[0].m
		ok := true
		err := p.real.Split(func(_ int, n *NS) ([]pretokenizedstring.Split, error) {
			var rs []pretokenizedstring.Split
			for i := range m.Cells {
				y, k := n.Slice(nsp.NewNormalizedRange(m.offsetOf(i), m.offsetOf(i+1)))
				ok = ok && k
				rs = append(rs, pretokenizedstring.Split{NormalizedString: y})
			}
			return rs, nil
		})
		if err != nil || !ok {
			return
		}
		p.splits = []mSplit{{m: mSliceN(m, 0, 1)}, {m: mSliceN(m, 1, 2)}, {m: mSliceN(m, 2, 3)}}
		c.Step()
		f(c, p, "Split")
		k := 0
		err = p.real.Tokenize(func(n *NS) ([]models.Token, error) {
			t := []models.Token{tok(7, string(x), 0, n.Len())}
			p.splits[k].tokd, p.splits[k].toks = true, t
			k++
			return append([]models.Token{}, t...), nil
		})
		if err != nil || k != 3 {
			return
		}
		f(c, p, "Tokenize")
	})
}

// ptEdited: pre-tokenizing strings that were edited or cut out before.
func ptEdited(r *Run, pts []mPT, alpha []rune, n int, guard func(c *C, m MS)) {
	ops := []Op{
		editOp("TrimLeft", func(n *NS) { n.TrimLeft() }, func(m MS) MS { return mTrim(m, true, false) }),
		editOp("Filter(drop a)", func(n *NS) { n.Filter(func(x rune) bool { return x != 'a' }) }, func(m MS) MS { return mFilter(m, func(x rune) bool { return x != 'a' }) }),
		editOp("Filter(drop ' ')", func(n *NS) { n.Filter(func(x rune) bool { return x != ' ' }) }, func(m MS) MS { return mFilter(m, func(x rune) bool { return x != ' ' }) }),
		editOp("Map(a>sp é>a sp>京)", func(n *NS) { n.Map(spaceMap) }, func(m MS) MS { return mMap(m, spaceMap) }),
		editOp("Prepend(sp)", func(n *NS) { n.Prepend(" ") }, func(m MS) MS { return mPrepend(m, " ") }),
		editOp("Prepend(é)", func(n *NS) { n.Prepend("é") }, func(m MS) MS { return mPrepend(m, "é") }),
		editOp("Append(sp a)", func(n *NS) { n.Append(" a") }, func(m MS) MS { return mAppend(m, " a") }),
		replaceRuneOp('a', " é"), replaceRuneOp(' ', ""), replaceRuneOp('é', "京 "),
		sliceNOp(1, 0), sliceNOp(0, 1), sliceOOp(1, 0), insertFrontOp(' '), insertFrontOp('H'),
	}
	r.Explore("edited texts", fmt.Sprintf("all texts of <=%d characters over %d x %d earlier edits x %d configurations", n, len(alpha), len(ops), len(pts)), func(c *C) {
		s := c.Text(alpha, n)
		op := &ops[c.Choose(len(ops))]
		for i := range pts {
			n, m := c.prepared(s, op)
			if guard != nil {
				guard(c, m)
			}
			p := &ptsRun{c: c, real: pretokenizedstring.FromNormalizedString(n), splits: []mSplit{{m: m}}}
			p.splits = applyPT(p.splits, &pts[i])
			c.ptStep(p, &pts[i], op.Name+" of "+s)
		}
		c.State(op.Name + s)
	})
}

func spaceMap(x rune) rune {
	switch x {
	case 'a':
		return ' '
	case 'é':
		return 'a'
	case ' ':
		return '京'
	}
	return x
}

func oddM01(r *Run) {
	codePoints(r, "code points", "as a known and as an unknown character of words, prefix and unknown token", func(c *C, x rune) {
		k := string(x)
		terms := uniq([]string{"[UNK]", k, "##" + k, "a", "##a", "京", k + "京", "##" + k + "a"})
		words := uniq([]string{k, k + k, k + "a", "a" + k, "a" + k + "a", k + "京", "a" + k + "z", "京" + k})
		ids := idsOf(terms)
		v := mkVocab(terms)
		if v == nil {
			return
		}
		for _, w := range words {
			c.wpCase(v, &wpConf{ids, "[UNK]", "##", 100}, w)
			c.wpCase(v, &wpConf{ids, "[UNK]", "##", runeCount(w)}, w)
			c.wpCase(v, &wpConf{ids, k, k, runeCount(w) - 1}, w)
		}
		few := []string{"[UNK]", "a", "##a"}
		if v = mkVocab(few); v != nil && x != 'a' {
			for _, w := range words {
				c.wpCase(v, &wpConf{idsOf(few), "[UNK]", "##", 100}, w)
			}
		}
	})
}

func oddM02(r *Run) {
	codePoints(r, "code points", "in merges on either side", func(c *C, x rune) {
		k := string(x)
		if x == 'a' || x == '京' || x == ' ' { // the space is tableOf's separator
			return
		}
		terms := []string{"a", "京", k, "a" + k, k + "京", k + k, "a" + k + k + k}
		v := mkVocab(terms)
		if v == nil {
			return
		}
		ids := idsOf(terms)
		t := tableOf(ids, 0, k+" "+k, "a "+k, k+" 京", "a"+k+" "+k+k)
		m := newBPE(v, t, 0, "", "", "", false)
		for _, w := range []string{k, "a" + k, k + k + k, "a" + k + k + k, "京" + k + "京a", k + "a" + k, k + k + k + k + "京"} {
			c.bpeCase(v, ids, revIDs(ids), t, m, w)
		}
	})
}

func oddM05(r *Run) {
	codePoints(r, "code points", "in terms on either side, at the start and at the end of lines and files", func(c *C, x rune) {
		k := string(x)
		terms := uniq([]string{"a", "b", "ab", "ba", k, k + "a", "a" + k, "a" + k + "b", "b" + k, k + "b", "ba" + k, k + "ab", k + k})
		v := mkVocab(terms)
		if v == nil {
			return
		}
		ids := idsOf(terms)
		for _, t := range []string{
			"a b\n" + k + " a\nb a\n", "a " + k + "\nb a\n", k + " " + k, "a" + k + " b\r\na b", "b a" + k + "\r\n", k + "a b\n", "a b" + k + "\n", "a b\n" + k + "\nb a\n", "#version" + k + "\na b\n", k + "#version\na b\n", "a" + k + "b\n",
		} {
			c.mergeFileCase(v, ids, t, 0, false)
		}
		c.mergeFileCase(v, ids, "a b\na "+k+"b\n", len(k), false)
	})
	r.Explore("very many lines", "n merge lines, a version or bad line at the start, middle or end", func(c *C) {
		n := []int{32767, 32769, 65535, 65536, 65537, 70001}[c.Choose(6)]
		if !r.Thorough && n < 60000 && n != 32769 {
			c.Skip()
		}
		ids := map[string]int{}
		v := vocabulary.NewVocabulary()
		add := func(t string) {
			ids[t] = len(ids)
			v.AddTerm(t)
		}
		var ls []string
		add("é")
		for i := 0; i < 300; i++ {
			add(fmt.Sprintf("x%d", i))
			add(fmt.Sprintf("y%d", i))
		}
		for i := 0; i < n; i++ {
			a, b := fmt.Sprintf("x%d", i%300), fmt.Sprintf("y%d", i/300)
			add(a + b)
			ls = append(ls, a+" "+b)
		}
		ins := []string{"", "#version: 1", "a", "é nope"}[c.Choose(4)]
		if at := c.Choose(3); ins != "" {
			p := []int{0, n / 2, n}[at]
			ls = append(ls[:p:p], append([]string{ins}, ls[p:]...)...)
		} else if at > 0 {
			c.Skip()
		}
		c.mergeFileCase(v, ids, strings.Join(ls, "\n")+"\n", 0, false)
	})
}

func oddM06(r *Run) {
	codePoints(r, "code points", "in terms, added and read from a file, escaped and not", func(c *C, x rune) {
		k := string(x)
		terms := uniq([]string{k, "a" + k, k + "é", k + k, strings.ToLower(k), strings.ToUpper(k), "", "a"})
		m := &mVocab{map[string]int{}, map[int]string{}, nil}
		v := vocabulary.NewVocabulary()
		for _, t := range terms[:4] {
			if d := m.addTerm(v, t); d != "" {
				c.Fail("U+%04X: adding %q: %s", x, t, d)
			}
			c.Step()
		}
		if d := vocabDiff(v, m, terms, []int{-1, 0, 1, 2, 3, 4}); d != "" {
			c.Fail("U+%04X: %s", x, d)
		}
		b, _ := json.Marshal(m.ids)
		c.vocabFileCase(string(b))
		if x < 0x10000 && x > 0x20 && x != '"' && x != '\\' {
			c.vocabFileCase(fmt.Sprintf(`{"\u%04x":1,"a%sb":2}`, x, k))
		}
	})
}

func oddT04(r *Run, kit []mPT) {
	pairs := [][2]int{{0, 3}, {1, 4}, {2, 5}, {5, 1}, {6, 2}, {7, 1}, {8, 2}, {9, 1}, {3, 6}, {1, 8}}
	codePoints(r, "code points", "through 10 pairs of pre-tokenizers", func(c *C, x rune) {
		s := string(x) + "a." + string(x) + " 京" + string(x)
		for _, k := range pairs {
			p := newPts(c, s)
			c.chain(p, kit, k[:], 0, fmt.Sprintf("%q", s))
		}
	})
	r.Explore("huge texts", hugeBound(r)+" through pairs of pre-tokenizers, few and very many splits", func(c *C) {
		s := c.hugeText(r, "a", "京", "a ", "京.")
		a, b := c.Choose(5), c.Choose(5)
		if a == 2 || b == 2 {
			c.Skip() // the library's work grows with the square of the number of matches
		}
		p := newPts(c, s)
		c.chain(p, kit, []int{a, b}, c.Choose(2), quoteTrunc(s))
	})
}
