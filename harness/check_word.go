package main

// M07: words of symbols used directly: histories of additions and merges.
// P04: encodings built directly from lists of tokens.

import (
	"container/heap"
	"fmt"
	"sort"
	"strings"

	"github.com/nlpodyssey/gotokenizers/encodings"
	"github.com/nlpodyssey/gotokenizers/models/bpemodel"
	"github.com/nlpodyssey/gotokenizers/strutils"
)

func init() {
	register("M07", "every history of additions and merges (with changing tables, with and without dropping) up to the bound on one word of symbols; after every step ids, byte lengths and neighbour links compared with a list of symbols merged naively", checkM07,
		"symbols are not empty (length > 0), as documented removal marks use length 0")
	register("M08", "every history of settings up to the bound on caches of several capacities; every key looked up after each: nothing or a word set under that key", checkM08,
		"the cache may miss at any time")
}

// wordRun is a word of symbols with its model.
type wordRun struct {
	w    *bpemodel.Word
	syms []mSym
	log  []string
}

func newWordRun(kind int) *wordRun {
	if kind == 0 {
		return &wordRun{w: bpemodel.NewWord()}
	}
	return &wordRun{w: bpemodel.NewWordWithCapacity(kind - 1)}
}

func (x *wordRun) history() string {
	s := strings.Join(x.log, "; ")
	if len(s) > 500 {
		s = s[:250] + "..." + s[len(s)-240:]
	}
	return s
}

func (x *wordRun) diff() string {
	if x.w.Len() != len(x.syms) || len(*x.w) != len(x.syms) {
		return fmt.Sprintf("%d symbols, expected %d", x.w.Len(), len(x.syms))
	}
	for i, s := range *x.w {
		m := x.syms[i]
		if s == nil || s.ID != m.id || s.Length != m.e-m.s {
			return fmt.Sprintf("symbol %d is %+v, expected id %d length %d", i, s, m.id, m.e-m.s)
		}
		next := i + 1
		if next == len(x.syms) {
			next = -1
		}
		if s.Prev != i-1 || s.Next != next || s.HasPrev() != (i > 0) || s.HasNext() != (next != -1) {
			return fmt.Sprintf("symbol %d of %d has previous %d and next %d", i, len(x.syms), s.Prev, s.Next)
		}
	}
	return ""
}

func (c *C) wordStep(x *wordRun, what string, f func(), model func()) {
	x.log = append(x.log, what)
	if pm := try(f); pm != "" {
		c.Fail("%s: %s", x.history(), pm)
	}
	model()
	c.Step()
	if d := x.diff(); d != "" {
		c.Fail("%s: %s", x.history(), d)
	}
}

func (c *C) wordAdd(x *wordRun, id, l int) {
	c.wordStep(x, fmt.Sprintf("Add(%d,%d)", id, l), func() { x.w.Add(id, l) }, func() {
		p := 0
		if n := len(x.syms); n > 0 {
			p = x.syms[n-1].e
		}
		x.syms = append(x.syms, mSym{id, p, p + l})
	})
}

// wordAddAll adds many symbols and compares once.
func (c *C) wordAddAll(x *wordRun, ids []int, l int, name string) {
	p := 0
	if n := len(x.syms); n > 0 {
		p = x.syms[n-1].e
	}
	c.wordStep(x, name, func() {
		for _, id := range ids {
			x.w.Add(id, l)
		}
	}, func() {
		for _, id := range ids {
			x.syms = append(x.syms, mSym{id, p, p + l})
			p += l
		}
	})
}

func (c *C) wordMerge(x *wordRun, m *bpemodel.MergeMap, t mTable, dropout float64) {
	c.wordStep(x, fmt.Sprintf("MergeAll(%sdropout %v)", t, dropout), func() { x.w.MergeAll(m, dropout) }, func() {
		if dropout < 1 {
			x.syms = t.merge(x.syms)
		}
	})
	if len(*m) != len(t) {
		c.Fail("%s: the table has %d entries, expected %d", x.history(), len(*m), len(t))
	}
}

func checkM07(r *Run) {
	queueM07(r)
	ids := []int{0, 1, -7}
	lens := []int{1, 3, 2}
	rule := func(k, rank int) mEntry { return mEntry{ids[k%3], ids[k/3%3], rank, append(ids, 1<<40)[k/9]} }
	r.Explore("merge, add, merge", fmt.Sprintf("all words of <=%d symbols over 3 x all tables of one rule over 3 symbols and 4 results, merged, extended by any symbol and merged with all tables of one rule", r.Pick(4, 5)), func(c *C) {
		n := c.Choose(r.Pick(5, 6))
		x := newWordRun(c.Choose(r.Pick(2, 4)))
		t1, t2 := mTable{rule(c.Choose(36), 0)}, mTable{}
		for i := 0; i < n; i++ {
			k := c.Choose(3)
			c.wordAdd(x, ids[k], lens[k])
		}
		c.wordMerge(x, t1.real(), t1, 0)
		if k := c.Choose(4); k < 3 {
			c.wordAdd(x, ids[k], lens[k])
		}
		t2 = mTable{rule(c.Choose(36), 0)}
		c.wordMerge(x, t2.real(), t2, 0)
		c.State(fmt.Sprint(x.syms))
	})
	tables := []mTable{
		{}, {{0, 0, 0, 0}}, {{0, 1, 0, 1 << 40}, {1 << 40, 0, 1, -7}}, {{1, 0, 3, 0}, {0, 0, -2, 1}}, {{-7, 0, 0, -7}, {0, -7, 1, 0}, {0, 0, 2, 1}},
		{{0, 0, 1, 1 << 40}, {1 << 40, 1 << 40, 0, 0}, {1, 1, 0, 1}}, {{1, 1, 5, 0}, {0, 1, 5, 1}, {1, 0, 5, -7}}, {{0, 1, 0, 0}, {1, 0, 0, 1}},
	}
	r.Explore("histories", fmt.Sprintf("all histories of %d steps (add one of 3 symbols, merge with one of two tables, merge dropping everything) x all ordered pairs of %d tables", r.Pick(7, 8), len(tables)), func(c *C) {
		a, b := tables[c.Choose(len(tables))], tables[c.Choose(len(tables))]
		ra, rb := a.real(), b.real()
		x := newWordRun(0)
		for i := 0; i < r.Pick(7, 8); i++ {
			if i < 2 {
				k := c.Choose(3)
				c.wordAdd(x, ids[k], lens[k])
				continue
			}
			switch k := c.Choose(6); k {
			case 3:
				c.wordMerge(x, ra, a, 0)
			case 4:
				c.wordMerge(x, rb, b, 0)
			case 5:
				c.wordMerge(x, ra, a, 1)
			default:
				c.wordAdd(x, ids[k], lens[k])
			}
		}
		c.State(fmt.Sprint(x.syms))
	})
	r.Explore("growing tables", "one table, changed by setting a new or an existing pair between merges of one growing word", func(c *C) {
		var t mTable
		m := bpemodel.NewMergeMap()
		x := newWordRun(0)
		for i := 0; i < 4; i++ {
			c.wordAdd(x, ids[i%2], lens[i%2])
		}
		for i := 0; i < r.Pick(3, 4); i++ {
			e := rule(c.Choose(36), 2-i)
			m.Set(e.l, e.r, bpemodel.MergeValue{Rank: e.rank, ID: e.id})
			if old := t.find(e.l, e.r); old != nil {
				old.rank, old.id = e.rank, e.id
			} else {
				t = append(t, e)
			}
			c.wordMerge(x, m, append(mTable{}, t...), 0)
			if k := c.Choose(3); k > 0 {
				c.wordAdd(x, ids[k-1], lens[k-1])
			}
		}
		c.State(fmt.Sprint(x.syms, t))
	})
	sz := fewSizes(r.Thorough)
	r.Explore("long words", "unit^n of symbols, merged, extended by unit^m and merged with the same or another table, then once more", func(c *C) {
		u := [][]int{{0}, {0, 1}, {0, 1, -7}, {0, 0, 1}}[c.Choose(4)]
		n := sz[c.Choose(len(sz))]
		m := []int{0, 1, 2, n}[c.Choose(4)]
		a, b := tables[1+c.Choose(len(tables)-1)], tables[1+c.Choose(len(tables)-1)]
		if n*len(u) > r.Pick(600, 2100) {
			c.Skip()
		}
		rep := func(n int) []int {
			var out []int
			for i := 0; i < n; i++ {
				out = append(out, u...)
			}
			return out
		}
		x := newWordRun(c.Choose(2))
		c.wordAddAll(x, rep(n), 2, fmt.Sprintf("Add %v x %d", u, n))
		c.wordMerge(x, a.real(), a, 0)
		c.wordAddAll(x, rep(m), 1, fmt.Sprintf("Add %v x %d", u, m))
		c.wordMerge(x, b.real(), b, 0)
		c.wordAdd(x, 1, 4)
		c.wordMerge(x, a.real(), a, 0)
	})
}

// ---------------------------------------------------------------- P04

func encTokens(ts []encodings.EncodableToken, e *encodings.Encoding) string {
	n := len(ts)
	if e == nil || e.Len() != n || e.IsEmpty() != (n == 0) || len(e.IDs) != n || len(e.TypeIDs) != n || len(e.Tokens) != n || len(e.Words) != n || len(e.Offsets) != n || len(e.SpecialTokensMask) != n || len(e.AttentionMask) != n || len(e.Overflowing) != 0 {
		return fmt.Sprintf("lengths differ from %d tokens", n)
	}
	for k, t := range ts {
		if e.IDs[k] != t.ID || e.Tokens[k] != t.Token || e.TypeIDs[k] != t.TypeID || e.Words[k] != t.WordIndex || e.Offsets[k] != t.Offsets || e.SpecialTokensMask[k] != 0 || e.AttentionMask[k] != 1 {
			return fmt.Sprintf("token %d of %d: id %d %q type %d word %d offsets %v special %d attention %d; expected %+v 0 1",
				k, n, e.IDs[k], e.Tokens[k], e.TypeIDs[k], e.Words[k], e.Offsets[k], e.SpecialTokensMask[k], e.AttentionMask[k], t)
		}
	}
	return ""
}

func encodingsP04(r *Run) {
	off := func(a, b int) strutils.ByteOffsets { return strutils.ByteOffsets{Start: a, End: b} }
	cat := []encodings.EncodableToken{
		{ID: 0, Token: "a", Offsets: off(0, 1), WordIndex: 0, TypeID: 0}, {ID: 1, Token: "a", Offsets: off(0, 1), WordIndex: 0, TypeID: 1},
		{ID: -3, Token: "", Offsets: off(2, 2), WordIndex: -1, TypeID: -1}, {ID: 1 << 40, Token: "京", Offsets: off(1, 4), WordIndex: 1 << 33, TypeID: 1 << 35},
		{}, {ID: 5, Token: "[PAD]", Offsets: off(7, 3), WordIndex: 2, TypeID: 300},
	}
	sz := fewSizes(r.Thorough)
	r.Explore("encodings of given tokens", fmt.Sprintf("all lists of <=%d of %d tokens, as they are or repeated up to 1025 times, and a second encoding built behind", r.Pick(4, 5), len(cat)), func(c *C) {
		n := c.Choose(r.Pick(5, 6))
		var ts []encodings.EncodableToken
		for i := 0; i < n; i++ {
			ts = append(ts, cat[c.Choose(len(cat))])
		}
		if n > 0 && n <= 2 {
			if k := c.Choose(len(sz) + 1); k > 0 {
				u := ts
				ts = nil
				for i := 0; i < sz[k-1]; i++ {
					ts = append(ts, u...)
				}
			}
		}
		given := append([]encodings.EncodableToken{}, ts...)
		var e, f *encodings.Encoding
		if pm := try(func() { e = encodings.EncodingFromEncodableTokens(ts) }); pm != "" {
			c.Fail("encoding of %d tokens: %s", len(ts), pm)
		}
		c.Step()
		if d := encTokens(given, e); d != "" {
			c.Fail("encoding of %.300s: %s", fmt.Sprintf("%+v", given), d)
		}
		f = encodings.EncodingFromEncodableTokens(append(ts, cat[3]))
		for i := range ts {
			if ts[i] != given[i] {
				c.Fail("building an encoding changed token %d of %d it was given", i, len(ts))
			}
			ts[i] = cat[5]
		}
		if d := encTokens(given, e); d != "" {
			c.Fail("encoding of %d tokens after building another one: %s", len(given), d)
		}
		if d := encTokens(append(given, cat[3]), f); d != "" {
			c.Fail("encoding of %d tokens: %s", len(given)+1, d)
		}
	})
	r.Explore("empty encodings", "new encodings with every capacity up to 64", func(c *C) {
		k := c.Choose(66)
		var e *encodings.Encoding
		if pm := try(func() {
			if k == 65 {
				e = encodings.NewDefaultEncoding()
			} else {
				e = encodings.NewEncodingWithCapacity(k)
			}
		}); pm != "" {
			c.Fail("capacity %d: %s", k, pm)
		}
		if d := encTokens(nil, e); d != "" {
			c.Fail("capacity %d: %s", k, d)
		}
	})
}

// ---------------------------------------------------------------- M07: merge queue

func queueM07(r *Run) {
	ranks := []int{0, 1, -5, 1<<63 - 1, -1 << 63}
	r.Explore("merge queue", fmt.Sprintf("all histories of %d pushes and pops of the merge queue over 5 ranks (extremes included) and 3 positions", r.Pick(5, 6)), func(c *C) {
		h := make(bpemodel.WordMergeHeap, 0, c.Choose(2))
		var model []bpemodel.WordMerge
		less := func(a, b bpemodel.WordMerge) bool {
			return a.Rank < b.Rank || a.Rank == b.Rank && a.Pos < b.Pos
		}
		pop := func() {
			x, ok := heap.Pop(&h).(bpemodel.WordMerge)
			k := -1
			for i, y := range model {
				if y == x {
					k = i
				}
				if ok && less(y, x) {
					c.Fail("the queue of %v yields %v", model, x)
				}
			}
			if !ok || k < 0 {
				c.Fail("the queue of %v yields %v", model, x)
			}
			model = append(model[:k:k], model[k+1:]...)
			c.Step()
		}
		if pm := try(func() {
			for i := 0; i < r.Pick(5, 6); i++ {
				k := c.Choose(16)
				if k < 15 {
					m := bpemodel.WordMerge{MergeValue: bpemodel.MergeValue{Rank: ranks[k/3], ID: i}, Pos: k % 3}
					heap.Push(&h, m)
					model = append(model, m)
				} else if len(model) > 0 {
					pop()
				} else {
					c.Skip()
				}
				if h.Len() != len(model) {
					c.Fail("the queue of %v has %d entries", model, h.Len())
				}
			}
			for len(model) > 0 {
				pop()
			}
		}); pm != "" {
			c.Fail("queue of %v: %s", model, pm)
		}
	})
	r.Explore("long merge queues", "queues of up to 4097 merges in several orders, emptied", func(c *C) {
		sz := fewSizes(true)
		n := sz[c.Choose(len(sz))]
		ord := c.Choose(4)
		var h bpemodel.WordMergeHeap
		var model []bpemodel.WordMerge
		for i := 0; i < n; i++ {
			m := bpemodel.WordMerge{MergeValue: bpemodel.MergeValue{Rank: []int{i, n - i, i * 7 % 5, 3}[ord], ID: 1}, Pos: []int{i, i, n - i, n - i}[ord]}
			heap.Push(&h, m)
			model = append(model, m)
		}
		sort.Slice(model, func(a, b int) bool {
			return model[a].Rank < model[b].Rank || model[a].Rank == model[b].Rank && model[a].Pos < model[b].Pos
		})
		for i := range model {
			if x := heap.Pop(&h).(bpemodel.WordMerge); x != model[i] {
				c.Fail("queue of %d merges (order %d): merge %d is %+v, expected %+v", n, ord, i, x, model[i])
			}
		}
		c.Step()
		if h.Len() != 0 {
			c.Fail("queue of %d merges: %d left", n, h.Len())
		}
	})
}

// ---------------------------------------------------------------- M08

func checkM08(r *Run) {
	mk := func(id int) *bpemodel.Word {
		w := bpemodel.NewWord()
		for i := 0; i <= id%3; i++ {
			w.Add(id, 1+i)
		}
		return w
	}
	run := func(keys []string, caps []int, steps int) Body {
		return func(c *C) {
			cp := caps[c.Choose(len(caps))]
			var ca *bpemodel.WordCache
			if cp == bpemodel.DefaultCacheCapacity {
				ca = bpemodel.NewDefaultCache()
			} else {
				ca = bpemodel.NewCache(cp)
			}
			set := map[string][]int{}
			var words []*bpemodel.Word
			log := fmt.Sprintf("capacity %d", cp)
			fresh := func() *bpemodel.Word {
				words = append(words, mk(len(words)))
				return words[len(words)-1]
			}
			judge := func(k string, w *bpemodel.Word) bool {
				if w == nil {
					return false
				}
				if cp == 0 {
					c.Fail("%s: a word is found for %q", log, k)
				}
				for _, i := range set[k] {
					e := mk(i)
					same := len(*w) == len(*e)
					for j := 0; same && j < len(*w); j++ {
						same = *(*w)[j] == *(*e)[j]
					}
					if same {
						return true
					}
				}
				c.Fail("%s: the word found for %q is not one that was set under it", log, k)
				return true
			}
			check := func() {
				hits := 0
				for _, k := range keys {
					if judge(k, ca.Get(k)) {
						hits++
					}
				}
				if cp > 0 && hits > cp {
					c.Fail("%s: %d words are held", log, hits)
				}
				ws := ca.GetValues(keys)
				if len(ws) != len(keys) {
					c.Fail("%s: %d values for %d keys", log, len(ws), len(keys))
				}
				for i, k := range keys {
					judge(k, ws[i])
				}
				if x := ca.GetValues(nil); len(x) != 0 {
					c.Fail("%s: %d values for no keys", log, len(x))
				}
			}
			if pm := try(func() {
				check()
				for i := 0; i < steps; i++ {
					k := c.Choose(len(keys) + len(keys)*len(keys) + 1)
					switch {
					case k < len(keys):
						log += fmt.Sprintf("; Set(%.40q)", keys[k])
						set[keys[k]] = append(set[keys[k]], len(words))
						ca.Set(keys[k], fresh())
					case k == len(keys):
						log += "; SetValues()"
						ca.SetValues(nil, nil)
					default:
						k -= len(keys) + 1
						ks := []string{keys[k/len(keys)], keys[k%len(keys)]}
						log += fmt.Sprintf("; SetValues(%.40q)", ks)
						if ks[0] == ks[1] {
							c.Skip()
						}
						set[ks[0]], set[ks[1]] = append(set[ks[0]], len(words)), append(set[ks[1]], len(words)+1)
						a := fresh()
						ca.SetValues(ks, []*bpemodel.Word{a, fresh()})
					}
					c.Step()
					check()
				}
			}); pm != "" {
				c.Fail("%s: %s", log, pm)
			}
			c.State(log)
		}
	}
	caps := []int{0, 1, 2, 3, bpemodel.DefaultCacheCapacity}
	r.Explore("histories", fmt.Sprintf("all histories of %d settings (one or two words) over 4 keys x 5 capacities, everything looked up after each", r.Pick(3, 4)), run([]string{"", "a", "b", "京"}, caps, r.Pick(3, 4)))
	r.Explore("alike keys", "long keys which differ in one place", run([]string{strings.Repeat("a", 300) + "b", strings.Repeat("a", 300) + "c", "b" + strings.Repeat("a", 300), strings.Repeat("a", 301), "a\x00", "a", "A"}, caps, 2))
	lsz := sizes(false)
	r.Explore("long alike keys", "two keys of every size up to 4097 bytes which differ in one byte anywhere in a coarse grid or in their length", func(c *C) {
		n := lsz[c.Choose(len(lsz))]
		k := strings.Repeat("a", n)
		var o string
		switch q := c.Choose(12); q {
		case 0:
			o = k + "a"
		case 1:
			o = k[1:]
		default:
			i := (n - 1) * (q - 2) / 9
			o = k[:i] + "b" + k[i+1:]
		}
		run([]string{k, o}, caps[1:4], 2)(c)
	})
	r.Explore("many keys", "n keys set, then some set again, capacities below, at and above n", func(c *C) {
		sz := fewSizes(r.Thorough)
		n := sz[c.Choose(len(sz))]
		cp := []int{0, 1, n - 1, n, n + 1, 2 * n}[c.Choose(6)]
		ca := bpemodel.NewCache(cp)
		last := map[string]map[int]bool{}
		if pm := try(func() {
			for round := 0; round < 3; round++ {
				for i := 0; i < n; i++ {
					if round == 1 && i%3 == 0 {
						continue
					}
					k := fmt.Sprintf("%d", i*7919%n)
					if last[k] == nil {
						last[k] = map[int]bool{}
					}
					last[k][i+round] = true
					ca.Set(k, mk(i+round))
					if w := ca.Get(k); w != nil && (cp == 0 || !last[k][(*w)[0].ID]) {
						c.Fail("capacity %d, %d keys: wrong word found after Set", cp, n)
					}
				}
				hits := 0
				for k, ids := range last {
					if w := ca.Get(k); w != nil {
						hits++
						if !ids[(*w)[0].ID] {
							c.Fail("capacity %d, %d keys: the word found for %q is not one that was set under it", cp, n, k)
						}
					}
				}
				if hits > 0 && hits > cp {
					c.Fail("capacity %d: %d words are held", cp, hits)
				}
			}
		}); pm != "" {
			c.Fail("capacity %d, %d keys: %s", cp, n, pm)
		}
		c.Step()
	})
}
