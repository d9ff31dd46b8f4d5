//go:build dropout

package main

// M04: byte-pair encoding with dropout, for every outcome sequence of the
// random source (math/rand is built with every draw scripted, see gen/rand.go).

import (
	"fmt"
	"math/rand"
	randv2 "math/rand/v2"
	"strings"
	"sync"

	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/models/bpemodel"
)

func init() {
	register("M04", "every merge table of the bound x every word up to the length bound x every outcome of every random draw of the first call (lowest or highest value), then all-low and all-high calls on the same model; compared with derivability of every token and with the deterministic merge", checkM04,
		"math/rand and math/rand/v2 are the only random sources", "a draw decides by comparing its value with a threshold, so its lowest and highest values cover both outcomes")
}

// hookMu serializes the calls under a scripted random source.
var hookMu sync.Mutex

const maxDraws = 200000

type tooManyDraws struct{}

// scripted runs Tokenize with every draw decided by f.
func scripted(m *bpemodel.BPEModel, w string, f func() bool) (ts []models.Token, err error, pm string) {
	hookMu.Lock()
	defer hookMu.Unlock()
	n := 0
	h := func() bool {
		if n++; n > maxDraws {
			panic(tooManyDraws{})
		}
		return f()
	}
	rand.VerifHook, randv2.VerifHook = h, h
	defer func() {
		rand.VerifHook, randv2.VerifHook = nil, nil
		if e := recover(); e != nil {
			switch e.(type) {
			case failure, skipCase:
				panic(e)
			case tooManyDraws:
				pm = fmt.Sprintf("more than %d draws for one word: does not terminate", maxDraws)
				return
			}
			pm = fmt.Sprintf("panic: %v%s", e, panicSite())
		}
	}()
	ts, err = m.Tokenize(w)
	return
}

// derivable tells whether the symbols can be merged into one symbol of the given id.
func (t mTable) derivable(syms []mSym, id int) bool {
	n := len(syms)
	set := make([][]map[int]bool, n)
	for i := range set {
		set[i] = make([]map[int]bool, n+1)
		set[i][i+1] = map[int]bool{syms[i].id: true}
	}
	for l := 2; l <= n; l++ {
		for i := 0; i+l <= n; i++ {
			s := map[int]bool{}
			for k := i + 1; k < i+l; k++ {
				for _, e := range t {
					if set[i][k][e.l] && set[k][i+l][e.r] {
						s[e.id] = true
					}
				}
			}
			set[i][i+l] = s
		}
	}
	return set[0][n][id]
}

func (c *C) dropoutCase(k *bpeConf, m *bpemodel.BPEModel, p float64, word string) {
	what := func() string {
		return fmt.Sprintf("terms %v merges %v dropout %v word %q", sortedTerms(k.ids), k.t, p, word)
	}
	init, dropped, refErr := k.syms(word)
	if dropped {
		c.Skip()
	}
	var script strings.Builder
	got, err, pm := scripted(m, word, func() bool {
		h := c.Choose(2) == 1
		if h {
			script.WriteByte('h')
		} else {
			script.WriteByte('l')
		}
		return h
	})
	c.Step()
	c.Logf("%s outcomes %s -> %v %v", what(), script.String(), got, err)
	if pm != "" {
		c.Fail("%s outcomes %s: %s", what(), script.String(), pm)
	}
	if refErr != nil {
		if err == nil {
			c.Fail("%s: no error", what())
		}
		return
	}
	if err != nil {
		c.Fail("%s outcomes %s: error %v", what(), script.String(), err)
	}
	c.State(script.String() + what())
	c.Outcome(fmt.Sprint(word, got))
	none := symToks(init, k.rev)
	full := symToks(k.t.merge(init), k.rev)
	if p >= 1 {
		if !sameToks(got, none) {
			c.Fail("%s outcomes %s: tokens %v, expected no merge", what(), script.String(), got)
		}
		return
	}
	i := 0
	for _, t := range got {
		j := i
		if i < len(init) && t.Offsets.Start != init[i].s {
			c.Fail("%s outcomes %s: tokens %v do not tile the word", what(), script.String(), got)
		}
		for j < len(init) && init[j].e < t.Offsets.End {
			j++
		}
		if j >= len(init) || init[j].e != t.Offsets.End {
			c.Fail("%s outcomes %s: tokens %v do not tile the word", what(), script.String(), got)
		}
		if t.Value != k.rev[t.ID] || !k.t.derivable(init[i:j+1], t.ID) {
			c.Fail("%s outcomes %s: tokens %v; token %v cannot be reached by merges", what(), script.String(), got, t)
		}
		i = j + 1
	}
	if i != len(init) {
		c.Fail("%s outcomes %s: tokens %v do not cover the word", what(), script.String(), got)
	}
	// On the same model: one constant outcome drops every merge, the other none.
	low, err1, pm1 := scripted(m, word, func() bool { return false })
	high, err2, pm2 := scripted(m, word, func() bool { return true })
	if pm1 != "" || pm2 != "" || err1 != nil || err2 != nil {
		c.Fail("%s outcomes %s, then all low: %v%s, all high: %v%s", what(), script.String(), err1, pm1, err2, pm2)
	}
	if !(sameToks(low, none) && sameToks(high, full) || sameToks(low, full) && sameToks(high, none)) {
		c.Fail("%s outcomes %s, then with all draws low: %v, with all draws high: %v; expected all merges dropped (%v) and none dropped (%v)", what(), script.String(), low, high, none, full)
	}
}

func checkM04(r *Run) {
	ps := []float64{0.3, 1e-9, 0.999999, 1}
	conf := func(terms []string, t mTable) *bpeConf {
		ids := idsOf(terms)
		return &bpeConf{ids: ids, rev: revIDs(ids), t: t}
	}
	run := func(base []rune, steps, n int, ps []float64) Body {
		var bs []string
		for _, x := range base {
			bs = append(bs, string(x))
		}
		return func(c *C) {
			terms, t := c.chooseTable(bs, steps)
			v := mkVocab(terms)
			if v == nil {
				c.Skip()
			}
			p := ps[c.Choose(len(ps))]
			c.dropoutCase(conf(terms, t), newBPE(v, t, p, "", "", "", false), p, c.TextN(base, n))
		}
	}
	for _, s := range [][2]int{{1, 1}, {1, 2}, {1, 3}, {1, 4}, {1, 5}, {1, 6}, {2, 3}, {2, 4}, {2, 5}, {2, 6}, {3, 3}, {3, 4}, {3, 5}, {2, 7}} {
		if (s[0] == 3 && s[1] == 5 || s[1] == 7) && !r.Thorough {
			continue
		}
		p := ps
		if s[0] == 3 {
			p = ps[:1]
		}
		if s[0] == 2 && s[1] >= 5 && !r.Thorough {
			p = ps[:1]
		}
		r.Explore(fmt.Sprintf("%d merges, %d characters", s[0], s[1]), "all tables over 2 characters, all ranks, all words, all outcomes of all draws", run([]rune("a京"), s[0], s[1], p))
	}
	r.Explore("options", "unknown token (fused or not, missing), prefix, suffix x words of <=4 characters x all outcomes", func(c *C) {
		terms := []string{"u", "a", "京", "#a", "#京", "a$", "#a$", "京$", "#京$", "X", "Y"}
		v := mkVocab(terms)
		if v == nil {
			c.Skip()
		}
		prefix, suffix := []string{"", "#"}[c.Choose(2)], []string{"", "$"}[c.Choose(2)]
		unk := []string{"u", "?"}[c.Choose(2)]
		fuse := c.Bool()
		t := mTable{{0, 0, 3, 9}, {1, 1, 1, 9}, {1, 3, 0, 9}, {2, 0, 2, 10}, {9, 3, 4, 10}, {0, 3, 5, 9}, {3, 6, 6, 10}}
		ids := idsOf(terms)
		k := &bpeConf{ids, revIDs(ids), t, unk, prefix, suffix, fuse}
		p := ps[c.Choose(r.Pick(1, 4))]
		m := bpemodel.New(v, t.real(), 10, p, unk, prefix, suffix, fuse)
		c.dropoutCase(k, m, p, c.Text([]rune("a京z"), r.Pick(4, 5)))
	})
	r.Explore("longer words", "a chaining and a doubling table x words of one character and two words x all outcomes", func(c *C) {
		terms := []string{"a", "b", "aa", "aaa", "aaaa", "ab", "aab"}
		t := []mTable{
			{{0, 0, 0, 2}, {2, 2, 1, 4}},
			{{0, 0, 0, 2}, {2, 0, 1, 3}, {3, 0, 2, 4}},
			{{0, 0, 1, 2}, {2, 1, 0, 6}, {0, 1, 2, 5}, {0, 5, 3, 6}},
		}[c.Choose(3)]
		v := mkVocab(terms)
		if v == nil {
			c.Skip()
		}
		w := []string{"aaaaa", "aaaaaa", "aabaab", "aaaab", "abaab", "aaabaa"}[c.Choose(6)]
		if strings.Count(w, "a") > r.Pick(5, 6) {
			c.Skip()
		}
		c.dropoutCase(conf(terms, t), newBPE(v, t, 0.5, "", "", "", false), 0.5, w)
	})
	r.Explore("long words, constant draws", "words of 8..300 characters; all draws low, all draws high, probability 1 with either", func(c *C) {
		terms := []string{"a", "b", "aa", "aaa", "aaaa", "ab", "aab"}
		t := []mTable{
			{{0, 0, 1, 2}, {2, 2, 2, 4}, {2, 1, 0, 6}, {0, 1, 3, 5}, {0, 5, 4, 6}, {2, 0, 5, 3}},
			{{0, 0, 0, 2}},
			{{0, 1, 0, 5}, {0, 0, 1, 2}},
		}[c.Choose(3)]
		v := mkVocab(terms)
		if v == nil {
			c.Skip()
		}
		w := strings.Repeat([]string{"a", "ab", "aab", "aaaab"}[c.Choose(4)], []int{4, 8, 9, 16, 17, 18, 32, 33, 64, 65, 129, 257, 300}[c.Choose(13)])
		k := conf(terms, t)
		init, _, _ := k.syms(w)
		none, full := symToks(init, k.rev), symToks(k.t.merge(init), k.rev)
		one := c.Bool()
		m := newBPE(v, t, map[bool]float64{false: 0.5, true: 1}[one], "", "", "", false)
		low, err1, pm1 := scripted(m, w, func() bool { return false })
		high, err2, pm2 := scripted(m, w, func() bool { return true })
		c.Step()
		if pm1 != "" || pm2 != "" || err1 != nil || err2 != nil {
			c.Fail("word %s: draws all low: %v%s, all high: %v%s", quoteTrunc(w), err1, pm1, err2, pm2)
		}
		if one {
			if !sameToks(low, none) || !sameToks(high, none) {
				c.Fail("word %s, probability 1: tokens %.300v and %.300v, expected no merge", quoteTrunc(w), low, high)
			}
			return
		}
		if !(sameToks(low, none) && sameToks(high, full) || sameToks(low, full) && sameToks(high, none)) {
			c.Fail("word %s: with all draws low: %.300v, with all draws high: %.300v; expected all merges dropped and none dropped", quoteTrunc(w), low, high)
		}
	})
	r.Explore("long words", "all draws low, high, or alternating with every period and phase up to 6", func(c *C) {
		terms := []string{"a", "b", "aa", "aaa", "aaaa", "ab", "aab"}
		t := mTable{{0, 0, 1, 2}, {2, 2, 2, 4}, {2, 1, 0, 6}, {0, 1, 3, 5}, {0, 5, 4, 6}, {2, 0, 5, 3}}
		v := mkVocab(terms)
		if v == nil {
			c.Skip()
		}
		w := strings.Repeat([]string{"a", "ab", "aab", "aaaab"}[c.Choose(4)], []int{8, 16, 33, 64, 129, 300}[c.Choose(6)])
		per := 1 + c.Choose(6)
		mask := c.Choose(1 << per)
		k := conf(terms, t)
		m := newBPE(v, t, 0.5, "", "", "", false)
		i := 0
		got, err, pm := scripted(m, w, func() bool { i++; return mask>>(i%per)&1 == 1 || i > 1500 })
		if pm != "" {
			// with a periodic script dropping everything may outlast the cap only by looping
			c.Fail("word %s draws of period %d mask %b: %s", quoteTrunc(w), per, mask, pm)
		}
		if err != nil || !tilesWord(got, w) {
			c.Fail("word %s draws of period %d mask %b: tokens do not tile: %.300v %v", quoteTrunc(w), per, mask, got, err)
		}
		init, _, _ := k.syms(w)
		for _, x := range got {
			if n := x.Offsets.End - x.Offsets.Start; n > 12 || !t.derivable(init[x.Offsets.Start:x.Offsets.End], x.ID) {
				c.Fail("word %s draws of period %d mask %b: token %v cannot be reached by merges", quoteTrunc(w), per, mask, x)
			}
		}
		c.Step()
	})
}
