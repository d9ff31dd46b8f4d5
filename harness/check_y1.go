package main

// Y01: the whole pipeline against the composed references.

import (
	"fmt"
	"strings"

	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/models/bpemodel"
	"github.com/nlpodyssey/gotokenizers/models/wordpiecemodel"
	"github.com/nlpodyssey/gotokenizers/normalizers"
	"github.com/nlpodyssey/gotokenizers/normalizers/sequencenormalizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizers"
	"github.com/nlpodyssey/gotokenizers/vocabulary"
)

func init() {
	register("Y01", "every short text x every combination of normalizer, pre-tokenizer (and pairs of them) and model, every Unicode scalar value in context, long texts; the encoding compared with the composition of the references of all stages", checkY01,
		"byte-pair models without an unknown token are only used on texts all of whose characters are in the vocabulary (listed finding of M03)",
		"texts starting with white space other than the plain space are not given to the meta-space pre-tokenizer (documentation and code disagree)")
}

// mModel is a model with its reference.
type mModel struct {
	name string
	make func() models.Model
	ref  func(word string) ([]models.Token, error)
}

func wpModel(name string, k *wpConf, v *vocabulary.Vocabulary) mModel {
	return mModel{name, func() models.Model { return wordpiecemodel.New(v, k.unk, k.prefix, k.limit) }, k.ref}
}

func bpeModel(name string, k *bpeConf, v *vocabulary.Vocabulary, cache int) mModel {
	return mModel{name, func() models.Model {
		return bpemodel.New(v, k.t.real(), cache, 0, k.unk, k.prefix, k.suffix, k.fuse)
	}, func(w string) ([]models.Token, error) {
		syms, _, err := k.syms(w)
		if err != nil {
			return nil, err
		}
		return symToks(k.t.merge(syms), k.rev), nil
	}}
}

// merges given as "left right" in rank order.
func tableOf(ids map[string]int, cut int, pairs ...string) mTable {
	var t mTable
	for i, p := range pairs {
		f := strings.Split(p, " ")
		j, ok := ids[f[0]+f[1][cut:]]
		if !ok {
			fatalf("no joined term for %q", p)
		}
		t = append(t, mEntry{ids[f[0]], ids[f[1]], i, j})
	}
	return t
}

// e2eModels are the models of the end-to-end checks (nil when a vocabulary is wrong).
func e2eModels() []mModel {
	var out []mModel
	add := func(m mModel, v *vocabulary.Vocabulary) {
		if v != nil {
			out = append(out, m)
		}
	}
	wt := []string{"[UNK]", "a", "##a", "É", "é", "##é", "aé", "京", "##京", ".", "##aé", "▁", "▁a", "##▁", "Ġ", "Ġa", "##Ġ", "e", "##e", "##.", "##1", "b", "##b", "##c", "##京a"}
	v := mkVocab(wt)
	add(wpModel("wordpiece", &wpConf{idsOf(wt), "[UNK]", "##", 100}, v), v)
	wt2 := []string{"a", "aa", "é", "京", "e", "?", "b", "Ã", "©", "Ġ"}
	v2 := mkVocab(wt2)
	add(wpModel("wordpiece(no prefix, limit 3)", &wpConf{idsOf(wt2), "?", "", 3}, v2), v2)
	add(wpModel("wordpiece(no unknown)", &wpConf{idsOf(wt2), "none", "", 100}, v2), v2)
	bt := []string{"u", "a", "é", "京", "e", ".", "aé", "éa", "aa", "京a", "a京a", "▁", "▁a", "Ġ", "Ġa", "Ã", "Ã©", "ä", "º", "º¬", "äº¬", "©", "¬", "b", "ab"}
	bi := idsOf(bt)
	bv := mkVocab(bt)
	tb := tableOf(bi, 0, "a é", "é a", "京 a", "a 京a", "a a", "▁ a", "Ġ a", "Ã ©", "º ¬", "ä º¬", "a b")
	add(bpeModel("bpe", &bpeConf{bi, revIDs(bi), tb, "u", "", "", false}, bv, 10), bv)
	add(bpeModel("bpe(fused unknowns, no cache)", &bpeConf{bi, revIDs(bi), tb, "u", "", "", true}, bv, 0), bv)
	st := []string{"u", "a", "##a", "a$", "##a$", "é", "##é", "##é$", "é$", "京", "##京", "京$", "##京$", "aa", "a##a$", "é##é", "##é##京$", "e$", "##e$"}
	si := idsOf(st)
	sv := mkVocab(st)
	ts := mTable{{1, 2, 2, 13}, {1, 4, 0, 14}, {5, 6, 1, 15}, {6, 12, 3, 16}}
	add(bpeModel("bpe(prefix, suffix)", &bpeConf{si, revIDs(si), ts, "u", "##", "$", true}, sv, 10), sv)
	add(bpeModel("bpe(missing unknown)", &bpeConf{si, revIDs(si), ts, "gone", "##", "$", true}, sv, 10), sv)
	return out
}

func normNone() mNorm {
	return mNorm{"none", func() normalizers.Normalizer { return sequencenormalizer.NewSequenceNormalizer(nil) }, func(m MS) MS { return m }}
}

func normSeq(ns ...mNorm) mNorm {
	var names []string
	for _, n := range ns {
		names = append(names, n.name)
	}
	return mNorm{"sequence(" + strings.Join(names, ",") + ")",
		func() normalizers.Normalizer {
			var l []normalizers.Normalizer
			for _, n := range ns {
				l = append(l, n.make())
			}
			return sequencenormalizer.NewSequenceNormalizer(l)
		},
		func(m MS) MS {
			for _, n := range ns {
				m = n.eff(m)
			}
			return m
		}}
}

func e2eNorms() []mNorm {
	return []mNorm{normNone(), normBert(15), normBert(2), normSeq(normLower(), normStrip(true, true)), normBert(12), normSeq(normBert(15), normStrip(true, false), normBert(3))}
}

func e2ePTs() []mPT {
	return []mPT{ptWhiteSplit(), ptBert(), ptWord(), ptDelim('a'), ptMeta('▁', true), ptMeta('▁', false), ptByteLevel(true), ptByteLevel(false), ptDelim('京')}
}

// pipeline runs all stages and compares the encoding.
func (c *C) pipeline(s string, nm *mNorm, pts []*mPT, mod *mModel, word, typ int, mode int) {
	what := func() string {
		var n []string
		for _, p := range pts {
			n = append(n, p.name)
		}
		return fmt.Sprintf("text %s through %s (%s), %s, %s", quoteTrunc(s), nm.name, []string{"before", "at the start", "after the first pre-tokenizer"}[mode], strings.Join(n, "+"), mod.name)
	}
	// reference
	splits := []mSplit{{m: newMS(s)}}
	normal := func() {
		for i := range splits {
			splits[i].m = nm.eff(splits[i].m)
		}
	}
	if mode < 2 {
		normal()
	}
	for k, pt := range pts {
		splits = applyPT(splits, pt)
		if k == 0 && mode == 2 {
			normal()
		}
	}
	var wantErr error
	for i := range splits {
		t, err := mod.ref(splits[i].m.Text())
		if err != nil {
			wantErr = err
			break
		}
		splits[i].tokd, splits[i].toks = true, t
	}
	// implementation
	var p *PTS
	var err error
	if pm := try(func() {
		n := newReal(s)
		norm := nm.make()
		if mode > 0 {
			p = pretokenizedstring.FromNormalizedString(n)
			if mode == 1 {
				err = p.Normalize(func(n *NS) error { return norm.Normalize(n) })
			}
		} else if err = norm.Normalize(n); err == nil {
			p = pretokenizedstring.FromNormalizedString(n)
		}
		if err != nil {
			return
		}
		for k, pt := range pts {
			var x pretokenizers.PreTokenizer = pt.make()
			if err = x.PreTokenize(p); err != nil {
				return
			}
			if k == 0 && mode == 2 {
				if err = p.Normalize(func(n *NS) error { return norm.Normalize(n) }); err != nil {
					return
				}
			}
		}
	}); pm != "" || err != nil {
		c.Fail("%s: error %v %s", what(), err, pm)
	}
	m := mod.make()
	if pm := try(func() {
		err = p.Tokenize(func(n *NS) ([]models.Token, error) { return m.Tokenize(n.Get()) })
	}); pm != "" {
		c.Fail("%s: %s", what(), pm)
	}
	c.Step()
	if wantErr != nil {
		if err == nil {
			c.Fail("%s: no error, expected %q", what(), wantErr)
		}
		return
	}
	if err != nil {
		c.Fail("%s: error %v", what(), err)
	}
	pr := &ptsRun{c: c, real: p, splits: splits}
	var d string
	if pm := try(func() {
		e, err := p.IntoEncoding(word, typ)
		d = pr.encDiff(e, err, word, typ)
		if c.traceOn && err == nil {
			c.Logf("%s => %q %v %v", what(), e.Tokens, e.Offsets, e.Words)
		}
		if d != "" || err != nil {
			return
		}
		prev := 0
		st := map[int]bool{}
		for _, i := range charStarts(s) {
			st[i] = true
		}
		for i, o := range e.Offsets {
			if o.Start > o.End || !st[o.Start] || !st[o.End] {
				d = fmt.Sprintf("token %d %q has offsets %v, not a range of characters of the text", i, e.Tokens[i], o)
			}
			if o.Start < prev && o.End > 0 && o.End < prev {
				d = fmt.Sprintf("token %d %q with offsets %v is out of order", i, e.Tokens[i], o)
			}
			prev = o.Start
		}
	}); pm != "" {
		c.Fail("%s: %s", what(), pm)
	}
	if d != "" {
		c.Fail("%s: %.500s", what(), d)
	}
}

func checkY01(r *Run) {
	norms, pts, mods := e2eNorms(), e2ePTs(), e2eModels()
	if len(mods) == 0 {
		return // no vocabulary works: M06
	}
	nComb := len(norms) * len(pts) * len(mods)
	alpha := []rune("aÉ京 .e\u0301\u3000\U0001D7D8") // D7D8: a digit of 4 bytes
	texts := func(name string, alpha []rune, n int) {
		r.Explore(name, fmt.Sprintf("all texts of <=%d characters over %d x %d combinations", n, len(alpha), nComb), func(c *C) {
			nm, pt, mod := c.Choose(len(norms)), c.Choose(len(pts)), c.Choose(len(mods))
			s := c.Text(alpha, n)
			c.pipeline(s, &norms[nm], []*mPT{&pts[pt]}, &mods[mod], -1, 0, nm%2)
			c.State(fmt.Sprint(nm, pt, mod, s))
		})
	}
	texts("texts", alpha, r.Pick(3, 4))
	texts("longer texts", []rune("aé京 "), r.Pick(5, 6))
	texts("repeats", []rune("aé "), r.Pick(6, 8))
	r.Explore("pairs of pre-tokenizers", "all texts of <=4 characters over 6 x all pairs of pre-tokenizers x 3 normalizers x all models", func(c *C) {
		nm, a, b, mod := []int{0, 1, 4}[c.Choose(3)], c.Choose(len(pts)), c.Choose(len(pts)), c.Choose(len(mods))
		s := c.Text([]rune("aÉ京 ."), r.Pick(3, 4))
		c.pipeline(s, &norms[nm], []*mPT{&pts[a], &pts[b]}, &mods[mod], -1, 0, 0)
	})
	r.Explore("word index and type id", "given word indexes and type ids", func(c *C) {
		nm, pt, mod := c.Choose(len(norms)), c.Choose(len(pts)), c.Choose(len(mods))
		c.pipeline(c.Text([]rune("a京 ."), 3), &norms[nm], []*mPT{&pts[pt]}, &mods[mod], []int{-1, 0, 7}[c.Choose(3)], c.Choose(3), 0)
	})
	r.Explore("widths", "every combination of character widths in texts of <=5 characters, unknown to most models", func(c *C) {
		rs := c.chooseWidths(c.Choose(r.Pick(5, 6)))
		nm, pt := c.Choose(len(norms)), c.Choose(len(pts))
		for i := range mods {
			c.pipeline(string(rs), &norms[nm], []*mPT{&pts[pt]}, &mods[i], -1, 0, 0)
		}
	})
	r.Explore("code points", "every Unicode scalar value in context x 8 combinations", func(c *C) {
		b := c.Choose(nBlocks)
		comb := [][3]int{{1, 1, 0}, {1, 6, 3}, {0, 7, 3}, {5, 2, 4}, {3, 5, 5}, {2, 1, 3}, {4, 0, 0}, {3, 2, 1}}
		if !r.Thorough {
			k := b % 4
			comb = [][3]int{comb[0], comb[1+k]}
		}
		for x := rune(b * 256); x < rune(b*256+256); x++ {
			if !validRune(x) {
				continue
			}
			if b > 0x380 && !r.Thorough && x&15 != 0 {
				continue
			}
			for _, k := range comb {
				c.pipeline("a"+string(x)+"é", &norms[k[0]], []*mPT{&pts[k[1]]}, &mods[k[2]], -1, 0, 0)
			}
		}
	})
	r.Explore("stage orders", fmt.Sprintf("no pre-tokenizer, or normalizing after the first of one or two: all texts of <=%d characters over 6", r.Pick(3, 4)), func(c *C) {
		s := c.Text([]rune("aÉ京 .\u0301"), r.Pick(3, 4))
		nm, mod := c.Choose(len(norms)), c.Choose(len(mods))
		var ps []*mPT
		mode := c.Choose(3)
		if mode == 2 {
			ps = append(ps, &pts[c.Choose(len(pts))])
			if k := c.Choose(4); k > 0 {
				ps = append(ps, &pts[[]int{0, 0, 1, 6}[k]])
			}
		}
		c.pipeline(s, &norms[nm], ps, &mods[mod], -1, 0, mode)
	})
	sz := fewSizes(r.Thorough)
	r.Explore("long texts", "unit^n with a tail through all combinations", func(c *C) {
		u := []string{"a", "É京. ", "a京 ", "é", "e\u0301a"}[c.Choose(5)]
		n := sz[c.Choose(len(sz))]
		if n*len(u) > r.Pick(300, 1500) {
			c.Skip()
		}
		nm, pt, mod := c.Choose(len(norms)), c.Choose(len(pts)), c.Choose(len(mods))
		c.pipeline(longText([]string{"", "京"}[c.Choose(2)], u, n, []string{"", ".É"}[c.Choose(2)]), &norms[nm], []*mPT{&pts[pt]}, &mods[mod], -1, 1, 0)
	})
	pairsPipeline(r, norms, pts, mods)
}
