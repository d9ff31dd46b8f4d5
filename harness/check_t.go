package main

// T01-T04: pre-tokenizers against cell-level references.

import (
	"fmt"
	"sync"
	"unicode"

	"github.com/dlclark/regexp2"
	"github.com/nlpodyssey/gotokenizers/models"
	nsp "github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizers"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/bertpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/bytelevelpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/metaspacepretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/runedelimiterpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/whitespacepretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/whitespacesplitpretokenizer"
	"github.com/nlpodyssey/gotokenizers/strutils"
)

func init() {
	register("T01", "every text over one representative per character class up to the length bound, every Unicode code point in several contexts and as delimiter, long structured texts; pieces, texts, offsets and alignments compared with hand-written run splitting", checkT01,
		"the word class of the default word expression is regexp2's \\w (L, Mn, Nd, Pc and the two zero-width joiners); custom expressions are judged by asking the regexp2 engine directly")
	register("T02", "as T01, with a hand-written matcher of the default expression and of the byte alphabet, each prefix switch, and custom expressions", checkT02,
		"custom expressions are judged by asking the regexp2 engine directly")
	register("T03", "as T01, with every meta character of the catalogue and each prefix switch; reference replaces, prefixes and cuts a list of characters", checkT03)
	register("T04", "every chain of pre-tokenizers up to the length bound after every prior edit, on splits some of which are tokenized; compared with composing the references", checkT04)
}

// uniSpace is the Unicode White_Space property, listed by hand.
func uniSpace(r rune) bool {
	switch {
	case r >= 9 && r <= 13, r == 0x20, r == 0x85, r == 0xA0, r == 0x1680, r >= 0x2000 && r <= 0x200A,
		r == 0x2028, r == 0x2029, r == 0x202F, r == 0x205F, r == 0x3000:
		return true
	}
	return false
}

func uniPunct(r rune) bool { return unicode.Is(unicode.Categories["P"], r) }

func uniWord(r rune) bool {
	return unicode.Is(unicode.Categories["L"], r) || unicode.Is(unicode.Categories["Mn"], r) || unicode.Is(unicode.Categories["Nd"], r) || unicode.Is(unicode.Categories["Pc"], r) || r == 0x200C || r == 0x200D
}

// mPT is a pre-tokenizer with its meaning on one split.
type mPT struct {
	name  string
	make  func() pretokenizers.PreTokenizer
	split func(m MS) []MS
}

// runs cuts m into maximal runs of equal class; class<0 characters are dropped and
// class 0 characters stand alone.
func runs(m MS, class func(r rune) int) []MS {
	var out []MS
	for i := 0; i < len(m.Cells); {
		k := class(m.Cells[i].R)
		j := i + 1
		if k > 0 {
			for j < len(m.Cells) && class(m.Cells[j].R) == k {
				j++
			}
		}
		if k >= 0 {
			out = append(out, mSliceN(m, i, j))
		}
		i = j
	}
	return out
}

// bySpans cuts m by ordered byte spans of its text (a gap is dropped, or kept as a piece).
func bySpans(m MS, spans [][2]int, keepGaps bool) []MS {
	at := map[int]int{0: 0}
	p := 0
	for i, c := range m.Cells {
		p += len(string(c.R))
		at[p] = i + 1
	}
	var out []MS
	add := func(a, b int) {
		if a < b {
			x, ok1 := at[a]
			y, ok2 := at[b]
			if !ok1 || !ok2 {
				fatalf("span %d-%d cuts a character of %q", a, b, m.Text())
			}
			out = append(out, mSliceN(m, x, y))
		}
	}
	pos := 0
	for _, s := range spans {
		if keepGaps {
			add(pos, s[0])
		}
		add(s[0], s[1])
		pos = s[1]
	}
	if keepGaps {
		add(pos, p)
	}
	return out
}

func ptWhiteSplit() mPT {
	return mPT{"whitespacesplit", func() pretokenizers.PreTokenizer { return whitespacesplitpretokenizer.New() },
		func(m MS) []MS {
			return runs(m, func(r rune) int {
				if uniSpace(r) {
					return -1
				}
				return 1
			})
		}}
}

func ptDelim(d rune) mPT {
	return mPT{fmt.Sprintf("runedelimiter(%q)", d), func() pretokenizers.PreTokenizer { return runedelimiterpretokenizer.New(d) },
		func(m MS) []MS {
			return runs(m, func(r rune) int {
				if r == d {
					return -1
				}
				return 1
			})
		}}
}

func ptBert() mPT {
	return mPT{"bert", func() pretokenizers.PreTokenizer { return bertpretokenizer.New() },
		func(m MS) []MS {
			return runs(m, func(r rune) int {
				switch {
				case uniSpace(r):
					return -1
				case uniPunct(r):
					return 0
				}
				return 1
			})
		}}
}

func ptWord() mPT {
	return mPT{"whitespace", func() pretokenizers.PreTokenizer { return whitespacepretokenizer.NewDefault() },
		func(m MS) []MS {
			return runs(m, func(r rune) int {
				switch {
				case uniWord(r):
					return 1
				case uniSpace(r):
					return -1
				}
				return 2
			})
		}}
}

func ptWordCustom(expr string, o regexp2.RegexOptions) mPT {
	re := regexp2.MustCompile(expr, o)
	return mPT{fmt.Sprintf("whitespace(%s,%x)", expr, int(o)), func() pretokenizers.PreTokenizer { return whitespacepretokenizer.New(re) },
		func(m MS) []MS { return bySpans(m, regexp2Matches(re, m.Text()), false) }}
}

func ptMeta(meta rune, prefix bool) mPT {
	return mPT{fmt.Sprintf("metaspace(%q,%v)", meta, prefix), func() pretokenizers.PreTokenizer { return metaspacepretokenizer.New(meta, prefix) },
		func(m MS) []MS {
			if prefix && len(m.Cells) > 0 && m.Cells[0].R != ' ' && m.Cells[0].R != meta && !metaUnprefixed(m.Cells[0].R) {
				m = mPrepend(m, string(meta))
			}
			m = mMap(m, func(r rune) rune {
				if r == ' ' {
					return meta
				}
				return r
			})
			var out []MS
			start := 0
			for i := range m.Cells {
				if m.Cells[i].R == meta && i > start {
					out = append(out, mSliceN(m, start, i))
					start = i
				}
			}
			if start < len(m.Cells) {
				out = append(out, mSliceN(m, start, len(m.Cells)))
			}
			return out
		}}
}

var (
	metaOnce sync.Once
	metaBare map[rune]bool
)

// metaUnprefixed tells whether a text that begins with the given white-space character
// gets no prefix. Documentation and code disagree about white space other than the plain
// space, so either is accepted: which one it is is asked once per character, and must then
// hold for every text, piece and meta character.
func metaUnprefixed(x rune) bool {
	if x == ' ' || !uniSpace(x) {
		return false
	}
	metaOnce.Do(func() {
		metaBare = map[rune]bool{}
		for r := rune(0); r < 0x10000; r++ {
			if r == ' ' || !uniSpace(r) {
				continue
			}
			try(func() {
				p := pretokenizedstring.FromString(string(r) + "a")
				if err := metaspacepretokenizer.New('_', true).PreTokenize(p); err != nil {
					return
				}
				metaBare[r] = p.Splits()[0].NormalizedString.Get() == string(r)+"a"
			})
		}
	})
	return metaBare[x]
}

// alphabet of the byte-level pre-tokenizer, by hand.
func byteRune(b byte) rune {
	printable := func(b int) bool {
		return b >= 33 && b <= 126 || b >= 161 && b <= 172 || b >= 174 && b <= 255
	}
	if printable(int(b)) {
		return rune(b)
	}
	n := 0
	for x := 0; x < int(b); x++ {
		if !printable(x) {
			n++
		}
	}
	return rune(0x100 + n)
}

var byteRunes = func() (t [256]rune) {
	for i := range t {
		t[i] = byteRune(byte(i))
	}
	return
}()

// toBytesCells expands every character into its byte characters.
func toBytesCells(m MS) MS {
	var out []Cell
	for _, c := range m.Cells {
		s := string(c.R)
		for i := 0; i < len(s); i++ {
			out = append(out, Cell{byteRunes[s[i]], c.S, c.E})
		}
	}
	return m.with(out)
}

// gpt2 cuts a list of characters as the default byte-level expression does.
func gpt2(rs []rune) [][2]int {
	isL := func(r rune) bool { return unicode.Is(unicode.Categories["L"], r) }
	isN := func(r rune) bool { return unicode.Is(unicode.Categories["N"], r) }
	low := func(i int) rune {
		if i < len(rs) {
			return unicode.ToLower(rs[i])
		}
		return -1
	}
	var out [][2]int
	for i := 0; i < len(rs); {
		j := i
		if rs[i] == '\'' {
			a, b := low(i+1), low(i+2)
			switch {
			case a == 's' || a == 't':
				j = i + 2
			case a == 'r' && b == 'e', a == 'v' && b == 'e':
				j = i + 3
			case a == 'm':
				j = i + 2
			case a == 'l' && b == 'l':
				j = i + 3
			case a == 'd':
				j = i + 2
			}
		}
		if j == i {
			k := i
			if rs[i] == ' ' && i+1 < len(rs) {
				k = i + 1
			}
			kind := func(r rune) int {
				switch {
				case uniSpace(r):
					return 0
				case isL(r):
					return 1
				case isN(r):
					return 2
				}
				return 3
			}
			if t := kind(rs[k]); t > 0 {
				j = k
				for j < len(rs) && kind(rs[j]) == t {
					j++
				}
			} else {
				j = i
				for j < len(rs) && uniSpace(rs[j]) {
					j++
				}
				if j < len(rs) && j-i > 1 {
					j-- // the last one belongs to what follows
				}
			}
		}
		out = append(out, [2]int{i, j})
		i = j
	}
	return out
}

func ptByteLevel(prefix bool) mPT {
	return mPT{fmt.Sprintf("bytelevel(default,%v)", prefix), func() pretokenizers.PreTokenizer {
		if prefix {
			return bytelevelpretokenizer.NewDefault()
		}
		return bytelevelpretokenizer.New(bytelevelpretokenizer.DefaultSplittingRegexp, false, true)
	},
		func(m MS) []MS {
			if prefix && len(m.Cells) > 0 && !uniSpace(m.Cells[0].R) {
				m = mPrepend(m, " ")
			}
			rs := make([]rune, len(m.Cells))
			for i, c := range m.Cells {
				rs[i] = c.R
			}
			var out []MS
			for _, s := range gpt2(rs) {
				out = append(out, toBytesCells(mSliceN(m, s[0], s[1])))
			}
			return out
		}}
}

func ptByteLevelCustom(expr string, o regexp2.RegexOptions, prefix bool) mPT {
	re := regexp2.MustCompile(expr, o)
	return mPT{fmt.Sprintf("bytelevel(%s,%x,%v)", expr, int(o), prefix), func() pretokenizers.PreTokenizer { return bytelevelpretokenizer.New(re, prefix, false) },
		func(m MS) []MS {
			if prefix && len(m.Cells) > 0 && !uniSpace(m.Cells[0].R) {
				m = mPrepend(m, " ")
			}
			var out []MS
			for _, x := range bySpans(m, regexp2Matches(re, m.Text()), true) {
				out = append(out, toBytesCells(x))
			}
			return out
		}}
}

// applyPT runs the reference on every split without tokens.
func applyPT(splits []mSplit, pt *mPT) []mSplit {
	var out []mSplit
	for _, s := range splits {
		if s.tokd {
			out = append(out, s)
			continue
		}
		for _, m := range pt.split(s.m) {
			out = append(out, mSplit{m: m})
		}
	}
	return out
}

// ptOne runs a pre-tokenizer on a fresh text and compares everything.
func (c *C) ptOne(pt *mPT, s string) {
	p := &ptsRun{c: c, real: pretokenizedstring.FromString(s)}
	p.splits = applyPT([]mSplit{{m: newMS(s)}}, pt)
	c.ptStep(p, pt, s)
}

func (c *C) ptStep(p *ptsRun, pt *mPT, what string) {
	var err error
	if pm := try(func() { err = pt.make().PreTokenize(p.real) }); pm != "" {
		c.Fail("%s on %s: %s", pt.name, quoteTrunc(what), pm)
	}
	c.Step()
	if err != nil {
		c.Fail("%s on %s returns error %v", pt.name, quoteTrunc(what), err)
	}
	d := p.listDiff()
	if d == "" {
		d = p.viewDiff()
	}
	if d != "" {
		c.Fail("%s on %s: %.600s", pt.name, quoteTrunc(what), d)
	}
	if c.traceOn {
		c.Logf("%s on %s => %s", pt.name, quoteTrunc(what), quoteTrunc(p.String()))
	}
}

// one character per class, several widths
var classAlpha = []rune{'a', 'É', '京', '.', ' ', '\u3000', '\n', '_', '1', '\u0301', '$', '«', '\'', '𝔾', '€', '\u00a0', 'ǅ', '٣', 'Ⅷ', '‿', '▁', 0, '\u200b'}

func ptTexts(c *C, r *Run, pts []mPT, alpha []rune, n int) {
	r.Explore("texts", fmt.Sprintf("all texts of <=%d characters over %d class representatives x %d configurations", n, len(alpha), len(pts)), func(c *C) {
		s := c.Text(alpha, n)
		for i := range pts {
			c.ptOne(&pts[i], s)
		}
		c.State(s)
	})
}

func ptCodePoints(r *Run, pts []mPT, delim bool) {
	r.Explore("code points", fmt.Sprintf("every Unicode scalar value next to each class and to itself x %d configurations", len(pts)), func(c *C) {
		b := c.Choose(nBlocks)
		for x := rune(b * 256); x < rune(b*256+256); x++ {
			if !validRune(x) {
				continue
			}
			k := string(x)
			s := k + "a" + k + "." + k + k + " " + k + "京" + k + "1" + k + "\n"
			for i := range pts {
				c.ptOne(&pts[i], s)
			}
			c.ptOne(&pts[0], k)
			if delim {
				d := ptDelim(x)
				c.ptOne(&d, s)
				d = ptDelim(x ^ 1)
				c.ptOne(&d, k+string(validOr(x^1))+k)
			}
		}
		c.State(fmt.Sprint(b))
	})
}

// ptPieces: the text is already split at a bar (which is dropped), some splits are
// tokenized, and one instance handles one text after the other.
func ptPieces(r *Run, pts []mPT, alpha []rune, n int, guard func(c *C, m MS)) {
	alpha = append([]rune{'|'}, alpha...)
	r.Explore("split texts", fmt.Sprintf("all texts of <=%d characters over %d and a bar at which they are already split x which splits have tokens x %d configurations, one instance for all splits and two texts", n, len(alpha)-1, len(pts)), func(c *C) {
		s := c.Text(alpha, n)
		mask := c.Choose(4)
		i := c.Choose(len(pts))
		pt := &pts[i]
		in := pt.make()
		for k := 0; k < 2; k++ {
			p := newPts(c, s)
			pm := applyPT(p.splits, &mPT{split: cutBars})
			err := p.real.Split(func(_ int, n *NS) ([]pretokenizedstring.Split, error) {
				var rs []pretokenizedstring.Split
				pos := 0
				for _, x := range pm {
					for s[pos] == '|' {
						pos++
					}
					l := len(x.m.Text())
					y, ok := n.Slice(nsp.NewNormalizedRange(pos, pos+l))
					if !ok {
						c.Skip()
					}
					rs = append(rs, pretokenizedstring.Split{NormalizedString: y})
					pos += l
				}
				return rs, nil
			})
			p.splits = pm
			if err != nil || p.listDiff() != "" {
				c.Skip()
			}
			if mask > 0 {
				p.tokEvery(c, func(i int) bool { return i%3 == mask-1 })
			}
			if guard != nil {
				for _, x := range p.splits {
					guard(c, x.m)
				}
			}
			p.splits = applyPT(p.splits, pt)
			c.ptStep(p, &mPT{name: pt.name, make: func() pretokenizers.PreTokenizer { return in }}, s)
			s = "京|" + s
		}
		c.State(s)
	})
}

func cutBars(m MS) []MS {
	return runs(m, func(r rune) int {
		if r == '|' {
			return -1
		}
		return 1
	})
}

func validOr(r rune) rune {
	if validRune(r) {
		return r
	}
	return 'a'
}

func ptLong(r *Run, pts []mPT) {
	sz := fewSizes(r.Thorough)
	units := []string{"a", "é", "京.", " ", "a ", "é\u3000", ".", "𝔾 .", "a1_", " \n", "▁", "' s"}
	r.Explore("long texts", fmt.Sprintf("pre + unit^n + post, %d units, %d sizes", len(units), len(sz)), func(c *C) {
		u := units[c.Choose(len(units))]
		s := longText([]string{"", "京 ", "\t"}[c.Choose(3)], u, sz[c.Choose(len(sz))], []string{"", ".é", " "}[c.Choose(3)])
		if len(s) > 1200 && !r.Thorough {
			c.Skip()
		}
		i := c.Choose(len(pts))
		c.ptOne(&pts[i], s)
	})
}

// every distinct character many times over, so that no position-dependent path is missed
func ptMixed(r *Run, pts []mPT) {
	sz := fewSizes(r.Thorough)
	r.Explore("mixed texts", "an isolated character of each class at every position of a long run", func(c *C) {
		n := sz[c.Choose(len(sz))]
		if n > 130 {
			c.Skip()
		}
		base := []string{"a", "京", " "}[c.Choose(3)]
		x := classAlpha[c.Choose(len(classAlpha))]
		i := c.Choose(len(pts))
		for pos := 0; pos <= n; pos++ {
			if pos > 3 && pos < n-3 && pos%7 != 0 {
				continue
			}
			c.ptOne(&pts[i], longText("", base, pos, string(x))+longText("", base, n-pos, ""))
		}
	})
}

func wordCustoms() []mPT {
	return []mPT{
		ptWordCustom(`\w+`, 0), ptWordCustom(`.`, regexp2.Singleline), ptWordCustom(`[a京]+|\.`, regexp2.IgnoreCase), ptWordCustom(`(?<=a).`, 0),
		ptWordCustom(`a*`, 0), ptWordCustom(`^.|.$`, regexp2.Multiline), ptWordCustom(`京`, regexp2.RightToLeft), ptWordCustom(`zzz`, 0), ptWordCustom(``, 0),
	}
}

func checkT01(r *Run) {
	pts := []mPT{ptWhiteSplit(), ptBert(), ptWord(), ptDelim('京'), ptDelim('a'), ptDelim(' ')}
	all := append(append([]mPT{}, pts...), wordCustoms()...)
	all = append(all, ptDelim('𝔾'), ptDelim('\u0301'), ptDelim(0), ptDelim('\n'))
	ptTexts(nil, r, all, classAlpha, r.Pick(3, 4))
	r.Explore("longer texts", fmt.Sprintf("all texts of %d characters over 7 class representatives", r.Pick(5, 7)), func(c *C) {
		s := c.TextN([]rune("a京. \u3000_$")[:r.Pick(6, 7)], r.Pick(5, 7))
		for i := range pts {
			c.ptOne(&pts[i], s)
		}
	})
	ptCodePoints(r, pts[:3], true)
	ptLong(r, all)
	ptMixed(r, pts)
	ptPieces(r, all, []rune("a京. _"), r.Pick(4, 6), nil)
	ptEdited(r, all, []rune("aé 京."), r.Pick(4, 5), nil)
	hugeT(r, pts)
	// (patterns with a literal prefix make regexp2 v1.4.0 panic on U+10000-1007F, U+20000-2007F)
	pairsPT(r, append(append([]mPT{}, pts...), wordCustoms()[:3]...), false, nil)
}

func checkT02(r *Run) {
	pts := []mPT{ptByteLevel(true), ptByteLevel(false)}
	var cust []mPT
	for _, p := range []bool{true, false} {
		cust = append(cust, ptByteLevelCustom(`\w+`, 0, p), ptByteLevelCustom(`.`, regexp2.Singleline, p), ptByteLevelCustom(`zzz`, 0, p), ptByteLevelCustom(`a*`, 0, p),
			ptByteLevelCustom(`(?<=a).|京`, 0, p), ptByteLevelCustom(`\s`, regexp2.RightToLeft, p), ptByteLevelCustom(`É`, regexp2.IgnoreCase, p), ptByteLevelCustom(``, 0, p))
	}
	ptTexts(nil, r, append(append([]mPT{}, pts...), cust...), classAlpha, r.Pick(3, 4))
	r.Explore("contractions", fmt.Sprintf("all texts of <=%d characters over the letters of the contractions, both cases", r.Pick(4, 5)), func(c *C) {
		s := c.Text([]rune("'strevmldSTa 1"), r.Pick(4, 5))
		c.ptOne(&pts[0], s)
		c.ptOne(&pts[1], s)
		c.State(s)
	})
	r.Explore("upper-case contractions", "each contraction with every case pattern in every context", func(c *C) {
		t := []string{"'s", "'t", "'re", "'ve", "'m", "'ll", "'d", "'l", "'r", "'x", "'ſ", "’s"}[c.Choose(12)]
		rs := []rune(t)
		for i := range rs {
			if c.Bool() {
				rs[i] = unicode.ToUpper(rs[i])
			}
		}
		pre := []string{"", "a", " ", "1", "'", "京", "\n", "'s"}[c.Choose(8)]
		post := []string{"", "a", " ", "1", "'", "京", "\n", "'s", "e", "s"}[c.Choose(10)]
		c.ptOne(&pts[c.Choose(2)], pre+string(rs)+post)
	})
	r.Explore("white space", fmt.Sprintf("all texts of <=%d characters over white space of every width and one word, number and symbol character", r.Pick(6, 7)), func(c *C) {
		s := c.Text([]rune(" \n\u3000é1."), r.Pick(6, 7))
		c.ptOne(&pts[c.Choose(2)], s)
	})
	ptCodePoints(r, pts, false)
	r.Explore("byte alphabet", "every byte value as a continuation or leading byte of some character", func(c *C) {
		b := c.Choose(256)
		pt := pts[1]
		seen := false
		for x := rune(0); x <= 0x10ffff; x += 1 {
			if !validRune(x) {
				continue
			}
			if x > 0x3000 && x%61 != 0 {
				continue
			}
			k := string(x)
			has := false
			for i := 0; i < len(k); i++ {
				has = has || k[i] == byte(b)
			}
			if has {
				seen = true
				if x%7 == rune(b)%7 {
					c.ptOne(&pt, k)
				}
			}
		}
		c.Outcome(fmt.Sprint(seen))
	})
	ptLong(r, append(append([]mPT{}, pts...), cust[:3]...))
	ptMixed(r, pts)
	ptPieces(r, append(append([]mPT{}, pts...), cust...), []rune("aé. '"), r.Pick(4, 6), nil)
	ptEdited(r, append(append([]mPT{}, pts...), cust...), []rune("aé 京\n"), r.Pick(4, 5), nil)
	hugeT(r, append(append([]mPT{}, pts...), cust[:2]...))
	pairsPT(r, append(append([]mPT{}, pts...), cust[:r.Pick(2, 16)]...), false, nil)
}

func checkT03(r *Run) {
	var pts []mPT
	for _, m := range []rune{'▁', '_', '京', '𝔾', ' ', 'a', '\u3000', 'é', 0} {
		pts = append(pts, ptMeta(m, true), ptMeta(m, false))
	}
	r.Explore("texts", fmt.Sprintf("all texts of <=%d characters over 10 characters x %d configurations", r.Pick(4, 5), len(pts)), func(c *C) {
		s := c.Text([]rune("aé京_▁ 𝔾\n\u3000."), r.Pick(4, 5))
		for i := range pts {
			c.ptOne(&pts[i], s)
		}
		c.State(s)
	})
	r.Explore("longer texts", fmt.Sprintf("all texts of %d characters over space, meta character and two others", r.Pick(7, 9)), func(c *C) {
		s := c.TextN([]rune(" ▁a京"), r.Pick(7, 9))
		c.ptOne(&pts[c.Choose(2)], s)
	})
	r.Explore("code points", "every Unicode scalar value as text and as meta character", func(c *C) {
		b := c.Choose(nBlocks)
		for x := rune(b * 256); x < rune(b*256+256); x++ {
			if !validRune(x) {
				continue
			}
			k := string(x)
			for _, pre := range []bool{true, false} {
				pt := ptMeta(x, pre)
				c.ptOne(&pt, "a "+k+k+" "+k+"é")
				c.ptOne(&pt, k+" a")
				pt = ptMeta('▁', pre)
				c.ptOne(&pt, k+" "+k+"▁"+k)
			}
		}
	})
	sz := fewSizes(r.Thorough)
	units := []string{"a", "é", " ", "a ", "▁", "▁ ", "京 ", "𝔾", " .", "_ "}
	r.Explore("long texts", "pre + unit^n + post", func(c *C) {
		u := units[c.Choose(len(units))]
		s := longText([]string{"", "京 ", " ", "▁"}[c.Choose(4)], u, sz[c.Choose(len(sz))], []string{"", ".é", " "}[c.Choose(3)])
		if len(s) > 1600 && !r.Thorough {
			c.Skip()
		}
		c.ptOne(&pts[c.Choose(6)], s)
	})
	ptPieces(r, pts, []rune("a京 ▁_\n"), r.Pick(4, 6), nil)
	ptEdited(r, pts, []rune("aé ▁京\n"), r.Pick(4, 5), nil)
	hugeT(r, pts[:4])
	pairsPT(r, pts, false, nil)
}

// ---------------------------------------------------------------- T04

func chainKit() []mPT {
	return []mPT{ptWhiteSplit(), ptBert(), ptWord(), ptDelim('京'), ptDelim('a'), ptByteLevel(true), ptByteLevel(false), ptMeta('▁', true), ptMeta('_', false), ptWordCustom(`[^é]+`, 0)}
}

// tokEvery attaches tokens to every split for which sel is true, through Split.
func (p *ptsRun) tokEvery(c *C, sel func(i int) bool) {
	i := 0
	var next []mSplit
	err := p.real.Split(func(_ int, n *NS) ([]pretokenizedstring.Split, error) {
		s := p.splits[i]
		sp := pretokenizedstring.Split{NormalizedString: n}
		if sel(i) {
			t := []models.Token{{ID: 40 + i, Value: "T", Offsets: strutils.ByteOffsets{Start: 0, End: n.Len()}}}
			sp.Tokens = &t
			s.tokd, s.toks = true, t
		}
		next = append(next, s)
		i++
		return []pretokenizedstring.Split{sp}, nil
	})
	if err != nil || i != len(p.splits) {
		c.Skip()
	}
	p.splits = next
	if p.listDiff() != "" {
		c.Skip()
	}
}

// chainStep is like ptStep, with the weaker statement about order added.
func (c *C) chain(p *ptsRun, kit []mPT, idx []int, tokMask int, what string) {
	for k, i := range idx {
		pt := &kit[i]
		if k > 0 && tokMask > 0 {
			p.tokEveryUntokd(c, tokMask)
			tokMask = 0
		}
		p.splits = applyPT(p.splits, pt)
		c.ptStep(p, pt, what)
		what += " -> " + pt.name
		if d := p.rangesInOrder(); d != "" {
			c.Fail("%s: %s", what, d)
		}
	}
}

func (p *ptsRun) tokEveryUntokd(c *C, mask int) {
	for _, s := range p.splits {
		if s.tokd {
			return
		}
	}
	p.tokEvery(c, func(i int) bool { return mask>>(i%3)&1 == 1 })
}

func (p *ptsRun) rangesInOrder() string {
	prev := 0
	for i, s := range p.real.GetOriginalByteSplits() {
		if s.Offsets.Start < prev && s.Offsets.End < prev {
			return fmt.Sprintf("split %d at %v is out of order", i, s.Offsets)
		}
		if s.Offsets.Start < 0 || s.Offsets.End > len(p.splits[i].m.Root) || s.Offsets.Start > s.Offsets.End {
			return fmt.Sprintf("split %d has range %v of %d bytes", i, s.Offsets, len(p.splits[i].m.Root))
		}
		if p.splits[i].m.Root[s.Offsets.Start:s.Offsets.End] != p.real.Splits()[i].NormalizedString.GetOriginal() {
			return fmt.Sprintf("split %d: its range %v holds another text than its original %q", i, s.Offsets, p.real.Splits()[i].NormalizedString.GetOriginal())
		}
		prev = s.Offsets.Start
	}
	return ""
}

func checkT04(r *Run) {
	kit := chainKit()
	alpha := []rune("aé京 ._")
	pre := append([]Op{editOp("none", func(n *NS) {}, func(m MS) MS { return m })},
		editOp("widen", func(n *NS) { n.Map(widenMap) }, func(m MS) MS { return mMap(m, widenMap) }),
		editOp("drop é", func(n *NS) { n.Filter(func(x rune) bool { return x != 'é' }) }, func(m MS) MS { return mFilter(m, func(x rune) bool { return x != 'é' }) }),
		editOp("prepend", func(n *NS) { n.Prepend("京 ") }, func(m MS) MS { return mPrepend(m, "京 ") }),
		replaceRuneOp('.', " a"),
	)
	body := func(nTok int, alpha []rune, textLen, depth int, ops []Op) Body {
		return func(c *C) {
			s := c.Text(alpha, textLen)
			op := &ops[c.Choose(len(ops))]
			n, m := newReal(s), newMS(s)
			nm, ok := op.Model(m)
			if !ok {
				c.Skip()
			}
			if pm := try(func() { op.Real(n) }); pm != "" || cmpAll(n, nm) != "" {
				c.Skip()
			}
			idx := make([]int, depth)
			for i := range idx {
				idx[i] = c.Choose(len(kit))
			}
			mask := c.Choose(nTok)
			p := &ptsRun{c: c, real: pretokenizedstring.FromNormalizedString(n), splits: []mSplit{{m: nm}}}
			c.chain(p, kit, idx, mask, fmt.Sprintf("%s of %q", op.Name, s))
			c.State(p.key())
		}
	}
	r.Explore("pairs", fmt.Sprintf("all texts of <=%d characters over 6 x 5 prior edits x all pairs of 10 pre-tokenizers x which splits are tokenized in between", r.Pick(4, 5)), body(4, alpha, r.Pick(4, 5), 2, pre))
	r.Explore("triples", fmt.Sprintf("all texts of <=%d characters over 6 x all triples", r.Pick(4, 5)), body(1, alpha, r.Pick(4, 5), 3, pre[:r.Pick(1, 2)]))
	r.Explore("longer texts", "texts of 5 characters over 4, all pairs", body(1, []rune("a京 ."), r.Pick(5, 6), 2, pre[:1]))
	r.Explore("starting from slices", "chains on a pre-tokenized string made from a slice of a longer text", func(c *C) {
		s := c.Text([]rune("aé ."), 3)
		if s == "" {
			c.Skip()
		}
		root := "京 " + s + "é."
		n, ok := newReal(root).Slice(nsp.NewNormalizedRange(4, 4+len(s)))
		m := newMS(root)
		m = mSliceN(m, 2, len(m.Cells)-2)
		if !ok || cmpAll(n, m) != "" {
			c.Skip()
		}
		p := &ptsRun{c: c, real: pretokenizedstring.FromNormalizedString(n), splits: []mSplit{{m: m}}}
		c.chain(p, kit, []int{c.Choose(len(kit)), c.Choose(len(kit))}, c.Choose(2), "slice of "+root)
	})
	sz := fewSizes(r.Thorough)
	r.Explore("long texts", "unit^n through all pairs", func(c *C) {
		u := []string{"a. ", "é京 ", "a"}[c.Choose(3)]
		n := sz[c.Choose(len(sz))]
		if n > r.Pick(70, 300) {
			c.Skip()
		}
		s := longText("", u, n, "_é")
		p := newPts(c, s)
		c.chain(p, kit, []int{c.Choose(len(kit)), c.Choose(len(kit))}, c.Choose(3), quoteTrunc(s))
	})
	oddT04(r, kit)
}
