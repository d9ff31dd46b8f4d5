package main

// M01-M03: sub-word models against naive references; shared helpers.

import (
	"encoding/json"
	"errors"
	"fmt"
	"strings"

	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/models/bpemodel"
	"github.com/nlpodyssey/gotokenizers/models/wordpiecemodel"
	"github.com/nlpodyssey/gotokenizers/strutils"
	"github.com/nlpodyssey/gotokenizers/vocabulary"
)

func init() {
	register("M01", "every vocabulary (subset of all short terms with and without prefix) x every word up to the length bound x prefixes, limits around the word length, unknown tokens; long words; compared with a greedy reference on characters", checkM01)
	register("M02", "every merge table built in the bounded number of steps with every rank permutation x every word up to the length bound; long words; compared with repeatedly scanning for the best pair", checkM02)
	register("M03", "every vocabulary (subset of the plain, prefixed and suffixed characters) x every word up to the length bound x every option combination, with and without merges; compared with a character-by-character reference", checkM03)
}

// mkVocab builds a vocabulary whose ids are the positions in terms (nil if the
// vocabulary itself is wrong, which is M06's business).
func mkVocab(terms []string) *vocabulary.Vocabulary {
	v := vocabulary.NewVocabulary()
	for _, t := range terms {
		v.AddTerm(t)
	}
	for i, t := range terms {
		if id, ok := v.GetID(t); !ok || id != i {
			return nil
		}
		if s, ok := v.GetString(i); !ok || s != t {
			return nil
		}
	}
	return v
}

// loadVocab loads given pairs from a file.
func (c *C) loadVocab(ids map[string]int) *vocabulary.Vocabulary {
	b, _ := json.Marshal(ids)
	v, err := vocabulary.FromJSONFile(c.writeFile("vocab.json", string(b)))
	if err != nil {
		return nil
	}
	for t, id := range ids {
		if x, ok := v.GetID(t); !ok || x != id {
			return nil
		}
	}
	return v
}

func tok(id int, val string, s, e int) models.Token {
	return models.Token{ID: id, Value: val, Offsets: strutils.ByteOffsets{Start: s, End: e}}
}

func toksDiff(got []models.Token, err error, want []models.Token, wantErr error) string {
	if wantErr != nil {
		if err == nil || !errors.Is(err, wantErr) {
			return fmt.Sprintf("tokens %v, error %v; expected error %q", got, err, wantErr)
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("error %v, expected tokens %v", err, want)
	}
	if !sameToks(got, want) {
		return fmt.Sprintf("tokens %v, expected %v", got, want)
	}
	return ""
}

// ---------------------------------------------------------------- M01

type wpConf struct {
	ids    map[string]int
	unk    string
	prefix string
	limit  int
}

func (k *wpConf) ref(word string) ([]models.Token, error) {
	bad := func() ([]models.Token, error) {
		id, ok := k.ids[k.unk]
		if !ok {
			return nil, wordpiecemodel.ErrUnknownTokenOutOfVocabulary
		}
		return []models.Token{tok(id, k.unk, 0, len(word))}, nil
	}
	rs := []rune(word)
	if len(rs) > k.limit {
		return bad()
	}
	var out []models.Token
	pos := 0
	for i := 0; i < len(rs); {
		found := false
		for j := len(rs); j > i; j-- {
			sub := string(rs[i:j])
			val := sub
			if i > 0 {
				val = k.prefix + sub
			}
			if id, ok := k.ids[val]; ok {
				out = append(out, tok(id, val, pos, pos+len(sub)))
				pos += len(sub)
				i = j
				found = true
				break
			}
		}
		if !found {
			return bad()
		}
	}
	return out, nil
}

func (c *C) wpCase(v *vocabulary.Vocabulary, k *wpConf, word string) {
	c.wpOn(wordpiecemodel.New(v, k.unk, k.prefix, k.limit), k, word)
}

func (c *C) wpOn(m *wordpiecemodel.WordPieceModel, k *wpConf, word string) {
	var got []models.Token
	var err error
	if pm := try(func() { got, err = m.Tokenize(word) }); pm != "" {
		c.Fail("vocabulary %v unk %q prefix %q limit %d, word %s: %s", k.ids, k.unk, k.prefix, k.limit, quoteTrunc(word), pm)
	}
	want, wantErr := k.ref(word)
	c.Step()
	if d := toksDiff(got, err, want, wantErr); d != "" {
		c.Fail("vocabulary %v unk %q prefix %q limit %d, word %s: %.400s", k.ids, k.unk, k.prefix, k.limit, quoteTrunc(word), d)
	}
	if c.traceOn {
		c.Logf("%v %q -> %v %v", k.ids, word, got, err)
	}
}

func idsOf(terms []string) map[string]int {
	m := map[string]int{}
	for i, t := range terms {
		m[t] = i
	}
	return m
}

func checkM01(r *Run) {
	pairs := [][]rune{[]rune("aé"), []rune("a京"), []rune("é京"), []rune("京𝔾"), []rune("𝔾a"), []rune("京東"), []rune("ab")}
	prefixes := []string{"##", "", "P", "京"} // P stands for a character of the word itself
	r.Explore("vocabularies", fmt.Sprintf("all subsets of the %d terms of <=2 characters over 2, with and without prefix, x all words of <=%d characters x 7 width pairs x 4 prefixes x 3 unknown tokens x limits", 12, r.Pick(4, 6)), func(c *C) {
		hi, lo := c.Choose(64), c.Choose(64)
		pr := pairs[c.Choose(len(pairs))]
		prefix := prefixes[c.Choose(len(prefixes))]
		if prefix == "P" {
			prefix = string(pr[0])
		}
		cand := texts(pr, 2)[1:]
		var terms []string
		for i, t := range cand {
			if hi>>i&1 == 1 {
				terms = append(terms, t)
			}
		}
		for i, t := range cand {
			if lo>>i&1 == 1 {
				terms = append(terms, prefix+t)
			}
		}
		terms = uniq(terms)
		withUnk := append([]string{"[UNK]"}, terms...)
		words := texts(pr, r.Pick(4, 6))
		for u := 0; u < 3; u++ {
			k := &wpConf{ids: idsOf(withUnk), unk: "[UNK]", prefix: prefix, limit: 100}
			v := mkVocab(withUnk)
			switch u {
			case 1:
				k.unk = "?"
			case 2:
				k.unk, k.ids = string(pr[0]), idsOf(terms)
				v = mkVocab(terms)
			}
			if v == nil {
				c.Skip()
			}
			for _, w := range words {
				if u == 2 && len(w)%3 != 0 {
					continue
				}
				c.wpCase(v, k, w)
			}
		}
		c.State(fmt.Sprint(terms, prefix))
	})
	r.Explore("limits", "limit from -1 to beyond the word's length x unknown token present or not", func(c *C) {
		pr := pairs[c.Choose(len(pairs))]
		w := c.Text(pr, 4)
		terms := []string{"[UNK]", string(pr[0]), string(pr[1]), "##" + string(pr[0]), string(pr), "##" + string(pr)}
		if c.Bool() {
			terms[0] = "x"
		}
		v := mkVocab(terms)
		if v == nil {
			c.Skip()
		}
		for l := -1; l <= 6*4; l++ {
			c.wpCase(v, &wpConf{idsOf(terms), "[UNK]", "##", l}, w)
		}
	})
	r.Explore("pieces of one word", fmt.Sprintf("one word of <=%d different characters of every width combination x every subset of its pieces", r.Pick(4, 5)), func(c *C) {
		n := 2 + c.Choose(r.Pick(3, 4))
		rs := c.chooseWidths(n)
		terms := []string{"[UNK]"}
		for i := 0; i < n; i++ {
			for j := i + 1; j <= n; j++ {
				if n == 5 && j-i == 2 {
					continue
				}
				if c.Bool() {
					t := string(rs[i:j])
					if i > 0 {
						t = "##" + t
					}
					terms = append(terms, t)
				}
			}
		}
		v := mkVocab(terms)
		if v == nil {
			c.Skip()
		}
		c.wpCase(v, &wpConf{idsOf(terms), "[UNK]", "##", n}, string(rs))
		c.State(fmt.Sprint(terms))
	})
	r.Explore("loaded vocabularies", "vocabularies with arbitrary ids from a file", func(c *C) {
		ids := map[string]int{}
		vals := []int{0, 7, -3, 1 << 40, 2}
		for i, t := range []string{"[UNK]", "京", "##é", "##é京"} {
			k := c.Choose(len(vals) + 1)
			if k < len(vals) {
				for _, x := range ids {
					if x == vals[k] {
						c.Skip()
					}
				}
				ids[t] = vals[k]
			}
			_ = i
		}
		v := c.loadVocab(ids)
		if v == nil {
			c.Skip()
		}
		for _, w := range texts([]rune("é京"), 3) {
			c.wpCase(v, &wpConf{ids, "[UNK]", "##", 100}, w)
		}
	})
	sz := fewSizes(r.Thorough)
	r.Explore("long words", "unit^n + tail, pieces of several lengths, limit at and next to the number of characters", func(c *C) {
		u := []string{"a", "é", "京", "𝔾", "aé京𝔾"}[c.Choose(5)]
		n := sz[c.Choose(len(sz))]
		tail := []string{"", "z", "京"}[c.Choose(3)]
		w := longText("", u, n, tail)
		if len(w) > r.Pick(700, 3100) {
			c.Skip()
		}
		terms := []string{"[UNK]", u, "##" + u, "z", "##z"}
		switch c.Choose(4) {
		case 1:
			terms = append(terms, "##"+strings.Repeat(u, 7), strings.Repeat(u, 3))
		case 2:
			terms = append(terms, w)
		case 3:
			terms = append(terms, strings.Repeat(u, n), "##"+strings.Repeat(u, (n+1)/2), "##京")
		}
		terms = uniq(terms)
		v := mkVocab(terms)
		if v == nil {
			c.Skip()
		}
		ln := len([]rune(w))
		for _, l := range []int{ln, ln - 1, ln + 1, len(w)} {
			c.wpCase(v, &wpConf{idsOf(terms), "[UNK]", "##", l}, w)
		}
	})
	r.Explore("long pieces anywhere", "word = head + unit^n + unit^m + tail: a long piece at the beginning, in the middle or at the end, followed by another long one or by single characters, over sizes around powers of two", func(c *C) {
		head := []string{"", "b", "é東"}[c.Choose(3)]
		u := []string{"a", "京"}[c.Choose(2)]
		n := sz[c.Choose(len(sz))]
		m := []int{0, 1, n - 1, n}[c.Choose(4)]
		tail := []string{"", "z", "東z"}[c.Choose(3)]
		w := head + strings.Repeat(u, n+m) + tail
		if len(w) > r.Pick(2200, 6500) || n < 2 {
			c.Skip()
		}
		terms := []string{"[UNK]", "b", "é", "##東", "z", "##z"}
		if c.Bool() {
			terms = append(terms, u, "##"+u)
		}
		for i, l := range []int{n, m, n} {
			t := strings.Repeat(u, l)
			if i == 2 {
				t += tail
				if !c.Bool() {
					continue
				}
			}
			if l > 0 {
				terms = append(terms, t, "##"+t)
			}
		}
		terms = uniq(terms)
		v := mkVocab(terms)
		if v == nil {
			c.Skip()
		}
		c.wpCase(v, &wpConf{idsOf(terms), "[UNK]", "##", 1 << 20}, w)
	})
	r.Explore("growing vocabularies", fmt.Sprintf("one model; all sequences of %d terms added to its vocabulary, every word of <=%d characters before and after each", r.Pick(4, 5), 3), func(c *C) {
		pr := pairs[c.Choose(r.Pick(4, len(pairs)))]
		a, b := string(pr[0]), string(pr[1])
		cand := []string{"[UNK]", a, b, "##" + a, "##" + b, a + b, "##" + b + b, a + b + a, "##" + a + b + b}
		ids := map[string]int{}
		v := vocabulary.NewVocabulary()
		var m *wordpiecemodel.WordPieceModel
		words := texts(pr, 3)
		warm, made := c.Bool(), c.Choose(3)
		for k := 0; ; k++ {
			if k == made {
				m = wordpiecemodel.New(v, "[UNK]", "##", 100)
			}
			for _, w := range words {
				if warm && k >= made || k == r.Pick(4, 5) {
					c.wpOn(m, &wpConf{ids, "[UNK]", "##", 100}, w)
				}
			}
			if k == r.Pick(4, 5) {
				break
			}
			t := cand[c.Choose(len(cand))]
			if _, ok := ids[t]; ok {
				c.Skip()
			}
			ids[t] = len(ids)
			v.AddTerm(t)
			if id, ok := v.GetID(t); !ok || id != ids[t] {
				c.Skip()
			}
		}
		c.State(fmt.Sprint(ids))
	})
	r.Explore("default model", "the empty default model", func(c *C) {
		w := c.Text([]rune("a京"), 3)
		m := wordpiecemodel.NewDefault()
		got, err := m.Tokenize(w)
		k := &wpConf{map[string]int{}, "[UNK]", "##", 100}
		want, wantErr := k.ref(w)
		if d := toksDiff(got, err, want, wantErr); d != "" {
			c.Fail("default model, word %q: %s", w, d)
		}
	})
	oddM01(r)
	hugeM01(r)
	pairsWP(r)
}

// ---------------------------------------------------------------- BPE reference

type mEntry struct{ l, r, rank, id int }

type mTable []mEntry

func (t mTable) real() *bpemodel.MergeMap {
	m := bpemodel.NewMergeMap()
	for _, e := range t {
		m.Set(e.l, e.r, bpemodel.MergeValue{Rank: e.rank, ID: e.id})
	}
	return m
}

func (t mTable) find(l, r int) *mEntry {
	for i := range t {
		if t[i].l == l && t[i].r == r {
			return &t[i]
		}
	}
	return nil
}

type mSym struct{ id, s, e int }

// merge repeatedly applies the best merge: lowest rank, then leftmost.
func (t mTable) merge(syms []mSym) []mSym {
	syms = append([]mSym{}, syms...)
	for {
		best := -1
		var be *mEntry
		for i := 0; i+1 < len(syms); i++ {
			if e := t.find(syms[i].id, syms[i+1].id); e != nil && (be == nil || e.rank < be.rank) {
				best, be = i, e
			}
		}
		if be == nil {
			return syms
		}
		syms[best] = mSym{be.id, syms[best].s, syms[best+1].e}
		syms = append(syms[:best+1], syms[best+2:]...)
	}
}

func symToks(syms []mSym, terms map[int]string) []models.Token {
	var out []models.Token
	for _, x := range syms {
		out = append(out, tok(x.id, terms[x.id], x.s, x.e))
	}
	return out
}

func (t mTable) String() string {
	var b strings.Builder
	for _, e := range t {
		fmt.Fprintf(&b, "(%d,%d)->%d rank %d; ", e.l, e.r, e.id, e.rank)
	}
	return b.String()
}

func newBPE(v *vocabulary.Vocabulary, t mTable, dropout float64, unk, prefix, suffix string, fuse bool) *bpemodel.BPEModel {
	return bpemodel.New(v, t.real(), bpemodel.DefaultCacheCapacity, dropout, unk, prefix, suffix, fuse)
}

// charSyms are the initial symbols of a word all of whose characters are terms.
func charSyms(word string, ids map[string]int) []mSym {
	var out []mSym
	for i, x := range word {
		out = append(out, mSym{ids[string(x)], i, i + len(string(x))})
	}
	return out
}

func revIDs(ids map[string]int) map[int]string {
	m := map[int]string{}
	for t, i := range ids {
		m[i] = t
	}
	return m
}

func (c *C) bpeCase(v *vocabulary.Vocabulary, ids map[string]int, rev map[int]string, t mTable, m *bpemodel.BPEModel, word string) {
	var got []models.Token
	var err error
	if pm := try(func() { got, err = m.Tokenize(word) }); pm != "" {
		c.Fail("terms %v merges %v word %s: %s", ids, t, quoteTrunc(word), pm)
	}
	want := symToks(t.merge(charSyms(word, ids)), rev)
	c.Step()
	if d := toksDiff(got, err, want, nil); d != "" {
		c.Fail("terms %v merges %v word %s: %.400s", ids, t, quoteTrunc(word), d)
	}
	if c.traceOn {
		c.Logf("%v %q -> %v", t, word, got)
	}
}

// chooseTable builds a table step by step: each step joins any two existing terms.
func (c *C) chooseTable(base []string, steps int) ([]string, mTable) {
	terms := append([]string{}, base...)
	ids := idsOf(terms)
	var t mTable
	for k := 0; k < steps; k++ {
		l := c.Choose(len(terms))
		r := c.Choose(len(terms))
		if t.find(l, r) != nil {
			c.Skip()
		}
		j := terms[l] + terms[r]
		id, ok := ids[j]
		if !ok {
			id = len(terms)
			terms = append(terms, j)
			ids[j] = id
		}
		t = append(t, mEntry{l, r, 0, id})
	}
	// ranks: any permutation
	left := make([]int, steps)
	for i := range left {
		left[i] = i
	}
	for i := range t {
		k := c.Choose(len(left))
		t[i].rank = left[k]
		left = append(left[:k:k], left[k+1:]...)
	}
	return terms, t
}

func checkM02(r *Run) {
	run := func(base []rune, steps, wordLen int) Body {
		words := texts(base, wordLen)
		var bs []string
		for _, x := range base {
			bs = append(bs, string(x))
		}
		return func(c *C) {
			terms, t := c.chooseTable(bs, steps)
			v := mkVocab(terms)
			if v == nil {
				c.Skip()
			}
			ids := idsOf(terms)
			rev := revIDs(ids)
			m := newBPE(v, t, 0, "", "", "", false)
			for _, w := range words {
				c.bpeCase(v, ids, rev, t, m, w)
			}
			c.State(t.String())
		}
	}
	r.Explore("tables over 2 characters", fmt.Sprintf("all tables of 1..3 merges, all ranks, all words of <=%d characters", r.Pick(8, 10)), func(c *C) {
		run([]rune("a京"), 1+c.Choose(3), r.Pick(8, 10))(c)
	})
	r.Explore("tables of 4 merges", fmt.Sprintf("all tables of 4 merges over 2 characters, all ranks, all words of <=%d characters", r.Pick(5, 7)), run([]rune("éa"), 4, r.Pick(5, 7)))
	r.Explore("tables over 3 characters", fmt.Sprintf("all tables of <=%d merges, all ranks, all words of <=%d characters", r.Pick(2, 3), 6), func(c *C) {
		run([]rune("aé京"), 1+c.Choose(r.Pick(2, 3)), 6)(c)
	})
	r.Explore("width combinations", "one table of 4 merges x all words of <=5 characters x every combination of character widths", func(c *C) {
		rs := c.chooseWidths(3)
		a, b, d := string(rs[0]), string(rs[1]), string(rs[2])
		terms := []string{a, b, d, a + b, b + d, a + b + d, d + d}
		t := mTable{{0, 1, 1, 3}, {1, 2, 0, 4}, {0, 4, 3, 5}, {3, 2, 4, 5}, {2, 2, 2, 6}}
		v := mkVocab(terms)
		if v == nil {
			c.Skip()
		}
		ids := idsOf(terms)
		rev := revIDs(ids)
		for _, w := range texts(rs, 5) {
			c.bpeCase(v, ids, rev, t, newBPE(v, t, 0, "", "", "", false), w)
		}
	})
	r.Explore("arbitrary results", "tables with any pairs over 4 ids, two of them giving the same id, 12 rank orders, all words of <=5 characters over 2", func(c *C) {
		terms := []string{"a", "京", "D", "Z"}
		ids := idsOf(terms)
		rev := revIDs(ids)
		var t mTable
		res := []int{2, 3, 3, 2}
		orders := [][4]int{{0, 1, 3, 2}, {0, 3, 1, 2}, {1, 0, 2, 3}, {2, 0, 1, 3}, {3, 2, 1, 0}, {1, 3, 0, 2}}
		ord := orders[c.Choose(r.Pick(4, 6))]
		for k := 0; k < 4; k++ {
			l, x := c.Choose(4), c.Choose(4)
			if t.find(l, x) != nil {
				c.Skip()
			}
			t = append(t, mEntry{l, x, ord[k], res[k]})
		}
		v := mkVocab(terms)
		if v == nil {
			c.Skip()
		}
		m := newBPE(v, t, 0, "", "", "", false)
		for _, w := range texts([]rune("a京"), r.Pick(4, 6)) {
			c.bpeCase(v, ids, rev, t, m, w)
		}
	})
	r.Explore("ranks and ids", "2 merges with extreme, negative and sparse ranks and ids from a loaded vocabulary", func(c *C) {
		rk := []int{0, -5, 1 << 40, 3, -1 << 62}
		idv := []int{0, 9, -2, 1 << 33}
		ids := map[string]int{}
		for i, s := range []string{"a", "京", "a京", "京a"} {
			k := c.Choose(len(idv))
			for _, x := range ids {
				if x == idv[k] {
					c.Skip()
				}
			}
			ids[s] = idv[k]
			_ = i
		}
		a, b := c.Choose(5), c.Choose(5)
		if a == b {
			c.Skip()
		}
		t := mTable{{ids["a"], ids["京"], rk[a], ids["a京"]}, {ids["京"], ids["a"], rk[b], ids["京a"]}}
		v := c.loadVocab(ids)
		if v == nil {
			c.Skip()
		}
		m := newBPE(v, t, 0, "", "", "", false)
		for _, w := range texts([]rune("a京"), 5) {
			c.bpeCase(v, ids, revIDs(ids), t, m, w)
		}
	})
	r.Explore("growing tables", "one model; terms and merges added one by one after it was made, a new word asked after each", func(c *C) {
		pr := [][]rune{[]rune("a京"), []rune("éa"), []rune("𝔾é")}[c.Choose(3)]
		a, b := string(pr[0]), string(pr[1])
		steps := r.Pick(3, 4)
		v := vocabulary.NewVocabulary()
		mm := bpemodel.NewMergeMap()
		var m *bpemodel.BPEModel
		terms := []string{a, b}
		v.AddTerm(a)
		v.AddTerm(b)
		var t mTable
		words := texts(pr, 6)
		when := c.Choose(steps + 1) // first step after which words are asked
		made := c.Choose(2)
		if made > when {
			c.Skip()
		}
		for k := 0; ; k++ {
			if k == made {
				m = bpemodel.New(v, mm, bpemodel.DefaultCacheCapacity, 0, "", "", "", false)
			}
			ids := idsOf(terms)
			if k >= when {
				for i, w := range words {
					if i%(steps+1) == k || k == steps && i%(steps+1) < when { // no word twice
						c.bpeCase(v, ids, revIDs(ids), t, m, w)
					}
				}
			}
			if k == steps {
				break
			}
			l, x := c.Choose(len(terms)), c.Choose(len(terms))
			if t.find(l, x) != nil {
				c.Skip()
			}
			j := terms[l] + terms[x]
			id, ok := ids[j]
			if !ok {
				id = len(terms)
				terms = append(terms, j)
				v.AddTerm(j)
			}
			rank := 10*k + 5 - 20*c.Choose(2)
			t = append(t, mEntry{l, x, rank, id})
			mm.Set(l, x, bpemodel.MergeValue{Rank: rank, ID: id})
		}
		c.State(t.String())
	})
	sz := fewSizes(r.Thorough)
	r.Explore("long words", "unit^n + tail with doubling and chaining tables", func(c *C) {
		u := []string{"a", "é", "京", "ab", "a京b"}[c.Choose(5)]
		n := sz[c.Choose(len(sz))]
		w := longText([]string{"", "b"}[c.Choose(2)], u, n, []string{"", "京", "ab"}[c.Choose(3)])
		if len(w) > 900 && !r.Thorough {
			c.Skip()
		}
		base := uniq([]string{"a", "é", "京", "b"})
		terms := append([]string{}, base...)
		ids := idsOf(terms)
		var t mTable
		add := func(l, r2 string) {
			j := l + r2
			if _, ok := ids[j]; !ok {
				ids[j] = len(terms)
				terms = append(terms, j)
			}
			if t.find(ids[l], ids[r2]) == nil {
				t = append(t, mEntry{ids[l], ids[r2], len(t), ids[j]})
			}
		}
		switch c.Choose(4) {
		case 0: // doubling
			add("a", "a")
			add("aa", "aa")
			add("aaaa", "aaaa")
			add("é", "é")
			add("京", "京")
			add("京京", "京京")
			add("a", "b")
			add("ab", "ab")
		case 1: // chaining to the right
			x := "a"
			for i := 0; i < 6; i++ {
				add(x, "a")
				x += "a"
			}
			add("京", "b")
			add("a", "京b")
			add("é", "é")
			add("éé", "é")
		case 2: // chaining to the left, late ranks first
			add("aaa", "a")
			add("aa", "a")
			if _, ok := ids["aa"]; ok {
				add("a", "a")
			}
			add("b", "a")
			add("ba", "ba")
			add("京", "京")
		case 3: // nothing applies
			add("b", "b")
		}
		v := mkVocab(terms)
		if v == nil {
			c.Skip()
		}
		c.bpeCase(v, ids, revIDs(ids), t, newBPE(v, t, 0, "", "", "", false), w)
	})
	r.Explore("long chains", "words whose characters merge into one token in k steps, in every direction", func(c *C) {
		k := []int{2, 3, 4, 5, 8, 9, 15, 16, 17, 26}[c.Choose(10)]
		letters := []rune("abcdefghijklmnopqrstuvwxyz")[:k]
		if c.Bool() {
			for i := range letters {
				letters[i] += 0x4E00
			}
		}
		var terms []string
		for _, x := range letters {
			terms = append(terms, string(x))
		}
		ids := idsOf(terms)
		var t mTable
		rank := func(i int) int { return i }
		if c.Bool() {
			rank = func(i int) int { return k - i }
		}
		switch c.Choose(2) {
		case 0:
			x := terms[0]
			for i := 1; i < k; i++ {
				j := x + string(letters[i])
				ids[j] = len(terms)
				t = append(t, mEntry{ids[x], ids[string(letters[i])], rank(i), ids[j]})
				terms = append(terms, j)
				x = j
			}
		case 1:
			x := terms[k-1]
			for i := k - 2; i >= 0; i-- {
				j := string(letters[i]) + x
				ids[j] = len(terms)
				t = append(t, mEntry{ids[string(letters[i])], ids[x], rank(k - 1 - i), ids[j]})
				terms = append(terms, j)
				x = j
			}
		}
		v := mkVocab(terms)
		if v == nil {
			c.Skip()
		}
		w := string(letters)
		ws := []string{w, w + w, string(letters[1:]) + w, w + string(letters[:k-1]), strings.Repeat(w, 5)}
		c.bpeCase(v, ids, revIDs(ids), t, newBPE(v, t, 0, "", "", "", false), ws[c.Choose(5)])
	})
	r.Explore("crowded queues", "words a^i c a^j d a^k where every neighbour pair is a candidate, most are overtaken, and one token eats its neighbours: all rank orders of 6 merges", func(c *C) {
		terms := []string{"a", "c", "d", "z"}
		ids := idsOf(terms)
		v := mkVocab(terms)
		if v == nil {
			c.Skip()
		}
		pairs := [][3]int{{0, 0, 3}, {1, 0, 1}, {0, 1, 1}, {1, 2, 1}, {0, 2, 2}, {2, 0, 2}}
		used := 0
		var t mTable
		for k := range pairs {
			x := c.Choose(len(pairs))
			if used>>x&1 == 1 {
				c.Skip()
			}
			used |= 1 << x
			t = append(t, mEntry{pairs[x][0], pairs[x][1], k, pairs[x][2]})
		}
		m := newBPE(v, t, 0, "", "", "", false)
		sz := []int{0, 1, 2, 3, 5, 8, 17, 40}
		for _, i := range sz {
			for _, j := range sz {
				for _, k := range []int{0, 1, 6} {
					c.bpeCase(v, ids, revIDs(ids), t, m, strings.Repeat("a", i)+"c"+strings.Repeat("a", j)+"d"+strings.Repeat("a", k))
				}
			}
		}
		c.State(fmt.Sprint(t))
	})
	oddM02(r)
	hugeM02(r)
}

// ---------------------------------------------------------------- M03

type bpeConf struct {
	ids                 map[string]int
	rev                 map[int]string
	t                   mTable
	unk, prefix, suffix string
	fuse                bool
}

// syms are the initial symbols, positional; dropped tells whether a character vanished.
func (k *bpeConf) syms(word string) (out []mSym, dropped bool, err error) {
	unkID := -1
	if k.unk != "" && word != "" {
		id, ok := k.ids[k.unk]
		if !ok {
			return nil, false, bpemodel.ErrUnknownTokenOutOfVocabulary
		}
		unkID = id
	}
	prevUnk := false
	for i, x := range word {
		l := len(string(x))
		s := string(x)
		if i > 0 {
			s = k.prefix + s
		}
		if i+l == len(word) {
			s += k.suffix
		}
		if id, ok := k.ids[s]; ok {
			out = append(out, mSym{id, i, i + l})
			prevUnk = false
			continue
		}
		if k.unk == "" {
			dropped = true
			continue
		}
		if prevUnk && k.fuse {
			out[len(out)-1].e = i + l
			continue
		}
		out = append(out, mSym{unkID, i, i + l})
		prevUnk = true
	}
	return out, dropped, nil
}

const keyDrop = "bpe-no-unk-drops-characters"

func (c *C) bpeConfCase(v *vocabulary.Vocabulary, k *bpeConf, word string) {
	c.bpeConfOn(bpemodel.New(v, k.t.real(), 10, 0, k.unk, k.prefix, k.suffix, k.fuse), k, word)
}

func (c *C) bpeConfOn(m *bpemodel.BPEModel, k *bpeConf, word string) {
	var got []models.Token
	var err error
	what := func() string {
		return fmt.Sprintf("terms %v merges %v unk %q prefix %q suffix %q fuse %v word %s", k.ids, k.t, k.unk, k.prefix, k.suffix, k.fuse, quoteTrunc(word))
	}
	if pm := try(func() { got, err = m.Tokenize(word) }); pm != "" {
		c.Fail("%s: %s", what(), pm)
	}
	c.Step()
	syms, dropped, wantErr := k.syms(word)
	want := symToks(k.t.merge(syms), k.rev)
	d := toksDiff(got, err, want, wantErr)
	if c.traceOn {
		c.Logf("%s -> %v %v", what(), got, err)
	}
	if !dropped {
		if d != "" {
			c.Fail("%s: %.400s", what(), d)
		}
		return
	}
	// A character has no token at all: the property cannot hold unless the call fails.
	if err != nil {
		return
	}
	if d == "" && tilesWord(got, word) {
		return
	}
	// the listed finding: the character is dropped and later offsets close the gap
	var cum []mSym
	pos := 0
	for _, s := range syms {
		cum = append(cum, mSym{s.id, pos, pos + s.e - s.s})
		pos += s.e - s.s
	}
	if c.r.IsKnown(keyDrop) && (d == "" || sameToks(got, symToks(k.t.merge(cum), k.rev))) {
		c.r.KnownFinding(keyDrop)
		return
	}
	c.Fail("%s: tokens %v do not cover the word (no unknown token is configured and a character is not in the vocabulary)", what(), got)
}

func tilesWord(ts []models.Token, w string) bool {
	pos := 0
	for _, t := range ts {
		if t.Offsets.Start != pos {
			return false
		}
		pos = t.Offsets.End
	}
	return pos == len(w)
}

func checkM03(r *Run) {
	r.Explore("options", fmt.Sprintf("every subset of the plain/prefixed/suffixed forms of 2 characters x all words of <=%d characters over 3 x every option combination", r.Pick(4, 5)), func(c *C) {
		rs := [][]rune{[]rune("a京z"), []rune("éa京"), []rune("𝔾éz")}[c.Choose(3)]
		prefix := []string{"", "##", "é"}[c.Choose(3)]
		suffix := []string{"", "</w>", "京"}[c.Choose(3)]
		mask := c.Choose(256)
		terms := []string{"[UNK]"}
		k := 0
		for _, x := range rs[:2] {
			for _, f := range []string{string(x), prefix + string(x), string(x) + suffix, prefix + string(x) + suffix} {
				if mask>>k&1 == 1 {
					terms = append(terms, f)
				}
				k++
			}
		}
		n := len(terms)
		terms = uniq(terms)
		if len(terms) < n {
			c.Skip() // the same vocabulary is reached by another mask
		}
		v := mkVocab(terms)
		if v == nil {
			c.Skip()
		}
		ids := idsOf(terms)
		rev := revIDs(ids)
		words := texts(rs, r.Pick(4, 5))
		for _, unk := range uniq([]string{"[UNK]", "", "?", string(rs[0]), prefix + string(rs[1]), prefix + string(rs[0]) + suffix}) {
			for _, fuse := range []bool{false, true} {
				for _, w := range words {
					c.bpeConfCase(v, &bpeConf{ids, rev, nil, unk, prefix, suffix, fuse}, w)
				}
			}
		}
		c.State(fmt.Sprint(terms, prefix, suffix))
	})
	r.Explore("options with merges", fmt.Sprintf("a vocabulary with all forms or with unknown characters x every table of <=%d merges over its ids, unknown token included, x all words of <=4 characters x options", r.Pick(1, 2)), func(c *C) {
		prefix := []string{"", "##"}[c.Choose(2)]
		suffix := []string{"", "</w>"}[c.Choose(2)]
		terms := uniq([]string{"[UNK]", "a", prefix + "a", "a" + suffix, prefix + "a" + suffix, "京", prefix + "京", "X", "Y"})
		if c.Bool() {
			terms = uniq([]string{"[UNK]", "a", prefix + "a", "X", "Y", "京" + suffix})
		}
		v := mkVocab(terms)
		if v == nil {
			c.Skip()
		}
		ids := idsOf(terms)
		rev := revIDs(ids)
		var t mTable
		for k := 0; k < r.Pick(1, 2); k++ {
			l, x := c.Choose(len(terms)), c.Choose(len(terms))
			if t.find(l, x) != nil {
				c.Skip()
			}
			t = append(t, mEntry{l, x, k, ids[[]string{"X", "Y"}[k%2]]})
		}
		fuse := c.Bool()
		for _, w := range texts([]rune("a京z"), r.Pick(5, 5)) {
			c.bpeConfCase(v, &bpeConf{ids, rev, t, "[UNK]", prefix, suffix, fuse}, w)
		}
	})
	r.Explore("widths", "every combination of widths of known and unknown characters in words of <=6 characters", func(c *C) {
		rs := c.chooseWidths(c.Choose(r.Pick(6, 7)))
		var terms []string
		for i, x := range rs {
			if i%2 == 0 || i == 3 && c.Bool() {
				terms = append(terms, string(x))
			}
		}
		terms = uniq(append(terms, "u"))
		v := mkVocab(terms)
		if v == nil {
			c.Skip()
		}
		ids := idsOf(terms)
		for _, w := range []string{string(rs), string(rs) + string(rs), "z" + string(rs), "zé" + string(rs) + "東z"} {
			for _, fuse := range []bool{false, true} {
				c.bpeConfCase(v, &bpeConf{ids, revIDs(ids), nil, "u", "", "", fuse}, w)
			}
		}
	})
	r.Explore("code points", "every Unicode scalar value as known and as unknown character with prefix and suffix", func(c *C) {
		b := c.Choose(nBlocks)
		for x := rune(b * 256); x < rune(b*256+256); x++ {
			if !validRune(x) || x == 'u' {
				continue
			}
			k := string(x)
			terms := uniq([]string{"u", k, "#" + k, "#" + k + "$"})
			v := mkVocab(terms)
			if v == nil {
				c.Skip()
			}
			ids := idsOf(terms)
			kk := &bpeConf{ids, revIDs(ids), nil, "u", "#", "$", true}
			c.bpeConfCase(v, kk, k+k+k)
			c.bpeConfCase(v, kk, k+string(validOr(x^3))+k+k)
		}
	})
	r.Explore("growing vocabularies", "one model; all sequences of 4 terms added to its vocabulary after it was made, a new word asked after each", func(c *C) {
		prefix, suffix := []string{"", "##"}[c.Choose(2)], []string{"", "</w>"}[c.Choose(2)]
		fuse := c.Bool()
		cand := uniq([]string{"[UNK]", "a", "京", prefix + "a", "京" + suffix, prefix + "京" + suffix, prefix + "a" + suffix})
		v := vocabulary.NewVocabulary()
		var m *bpemodel.BPEModel
		ids := map[string]int{}
		words := texts([]rune("a京z"), 4)
		when := c.Choose(5)
		made := c.Choose(3)
		if made > when {
			c.Skip()
		}
		for k := 0; ; k++ {
			if k == made {
				m = bpemodel.New(v, bpemodel.NewMergeMap(), 10, 0, "[UNK]", prefix, suffix, fuse)
			}
			for i, w := range words {
				if k >= when && (i%5 == k || k == 4 && i%5 < when) {
					c.bpeConfOn(m, &bpeConf{ids, revIDs(ids), nil, "[UNK]", prefix, suffix, fuse}, w)
				}
			}
			if k == 4 {
				break
			}
			t := cand[c.Choose(len(cand))]
			if _, ok := ids[t]; ok {
				c.Skip()
			}
			ids[t] = len(ids)
			v.AddTerm(t)
			if id, ok := v.GetID(t); !ok || id != ids[t] {
				c.Skip()
			}
		}
		c.State(fmt.Sprint(ids, when))
	})
	sz := fewSizes(r.Thorough)
	r.Explore("long words", "runs of known and unknown characters of every size", func(c *C) {
		u := []string{"a", "z", "é", "東", "az", "a東東"}[c.Choose(6)]
		w := longText([]string{"", "z", "京"}[c.Choose(3)], u, sz[c.Choose(len(sz))], []string{"", "東", "a"}[c.Choose(3)])
		if len(w) > 1500 && !r.Thorough {
			c.Skip()
		}
		terms := []string{"u", "a", "##a", "##京", "京", "é", "##é", "a</w>", "##a</w>"}
		v := mkVocab(terms)
		if v == nil {
			c.Skip()
		}
		ids := idsOf(terms)
		prefix, suffix := []string{"", "##"}[c.Choose(2)], []string{"", "</w>"}[c.Choose(2)]
		c.bpeConfCase(v, &bpeConf{ids, revIDs(ids), nil, "u", prefix, suffix, c.Bool()}, w)
	})
	hugeM03(r)
	pairsBPE(r)
}
