package main

// Every ordered pair of characters that code may treat as a unit or as special.

import (
	"fmt"
	"unicode"
)

// pairRunes: all white space, every general category, case oddities, joiners, emoji
// parts, jamo, combining marks, borders of the ideograph blocks, contraction letters.
var pairRunes = []rune("aAbsStTdDmMlLrRvVeEuzZ09_ \t\n\v\f\r\u0085\u00a0\u1680\u2000\u2002\u2003\u2007\u2009\u200a\u2028\u2029\u202f\u205f\u3000" +
	".,;:!?'\"`-()[]{}<>=+*/\\|@#$%^&~‘’“”«»–—…¡¿§¶、。・「」！／：＿" +
	"€£¬©№×÷°²½٣Ⅷ①९" +
	"éÉßẞſŉİıǅǄǆΣσςΐﬁKÅΩaªʰʼﾞ" +
	"\u0300\u0301\u0308\u0323\u20dd\u0903\u0488\u05b0\u064b\u0e31\u093f\u3099" +
	"\u00ad\u180e\u200b\u200c\u200d\u200e\u202a\u2060\ufe0e\ufe0f\ufeff\ufffc\ufffd\ufffe\uffff\u0000\u0001\u007f\u0080\u009f\u0378\ue000\ufdd0" +
	"‿⁀▁░█" +
	"一京龥\u9fff\u3400\u4dbf\u4dc0\u33ff\uf900\ufaff\u3007々〆ひカー한ᄀ각\u1100\u1161\u11a8ก้अא" +
	"😀👨👩🏽🇦🇧𝔾𝒜𝟎𐐀𐐨𠀀\U0002a6df\U0002a6e0\U0002a700\U0002f800\U0002fa1f\U000e0041\U0010ffff")

// pairTexts gives the texts "xy", "axyb" and "x yx" of every pair to f; fast takes only the second.
func pairTexts(r *Run, note string, fast bool, f func(c *C, s string)) {
	n := len(pairRunes)
	r.Explore("pairs of characters", fmt.Sprintf("all ordered pairs of %d characters in %d texts each: %s", n, map[bool]int{true: 1, false: 3}[fast && !r.Thorough], note), func(c *C) {
		x := string(pairRunes[c.Choose(n)])
		for _, q := range pairRunes {
			y := string(q)
			f(c, "a"+x+y+"b")
			if !fast || r.Thorough {
				f(c, x+y)
				f(c, x+" "+y+x)
			}
		}
		c.State(x)
	})
	r.Explore("triples of characters", fmt.Sprintf("all ordered triples of %d characters: %s", len(tripleRunes), note), func(c *C) {
		x, y := string(tripleRunes[c.Choose(len(tripleRunes))]), string(tripleRunes[c.Choose(len(tripleRunes))])
		for _, z := range tripleRunes {
			f(c, x+y+string(z))
		}
		c.State(x + y)
	})
}

// tripleRunes has about one character of each kind that may matter in a sequence.
var tripleRunes = []rune("aAsT9_ \t\n\r\u0085\u00a0\u3000.,'\"-#▁。€²éßİΣς\u0301\u0323\u0903\u0488\u00ad\u200b\u200d\u2028\ufe0f\ufeff\ufffd\ufffe\u0000\u0001\u007f\u0378\ue000‿一京\u3400々한ᄀ\u1161😀👨🏽🇦𝔾𝟎𐐀𠀀\U0002f800\U0010ffff")

func pairsPT(r *Run, pts []mPT, fast bool, guard func(s string) bool) {
	pairTexts(r, fmt.Sprintf("%d configurations", len(pts)), fast, func(c *C, s string) {
		if guard != nil && !guard(s) {
			return
		}
		for i := range pts {
			c.ptOne(&pts[i], s)
		}
	})
}

func pairsNorm(r *Run, norms []mNorm, fast bool) {
	pairTexts(r, fmt.Sprintf("%d configurations", len(norms)), fast, func(c *C, s string) {
		m := newMS(s)
		for i := range norms {
			c.normOne(&norms[i], newReal(s), m, fmt.Sprintf("%q", s))
		}
	})
}

func pairsEdit(r *Run, align bool) {
	ops := editOps(true)
	var use []Op
	for _, o := range ops {
		if r.Thorough || len(use) < 40 {
			use = append(use, o)
		}
	}
	up := editOp("ToTitle", func(n *NS) { n.Map(unicode.ToTitle) }, func(m MS) MS { return mMap(m, unicode.ToTitle) })
	use = append(use, up)
	pairTexts(r, fmt.Sprintf("%d edits", len(use)), true, func(c *C, s string) {
		m0 := newMS(s)
		for i := range use {
			m, ok := use[i].Model(m0)
			if !ok {
				continue
			}
			n := newReal(s)
			var err error
			pm := try(func() { n, err = use[i].Real(n) })
			c.Step()
			if d := judge(n, m, pm, err, align); d != "" {
				c.Fail("%s of %q: %.300s", use[i].Name, s, d)
			}
		}
	})
}

// pairsWP and pairsBPE make models whose vocabularies hold both characters in several forms.
func pairsWP(r *Run) {
	n := len(pairRunes)
	r.Explore("pairs of characters", fmt.Sprintf("all ordered pairs of %d characters x 5 vocabularies of their pieces x 6 words", n), func(c *C) {
		x := string(pairRunes[c.Choose(n)])
		for _, q := range pairRunes {
			y := string(q)
			for i, terms := range [][]string{
				{"[UNK]", x, y, "##" + x, "##" + y},
				{"[UNK]", x + y, "##" + x + y, "##" + x},
				{"[UNK]", x, "##" + y + x, "##" + y},
				{x, y, "##" + y},
				{"[UNK]", "a", "##" + x, "##" + x + y + "b", "##" + y},
			} {
				terms = uniq(terms)
				v := mkVocab(terms)
				if v == nil {
					c.Skip()
				}
				k := &wpConf{ids: idsOf(terms), unk: terms[0], prefix: "##", limit: 100}
				words := []string{x + y, y + x + y, "a" + x + y + "b", x + x + y, "a" + y, x + y + x + y}
				if !r.Thorough {
					words = words[i%2*2 : i%2*2+4]
				}
				for _, w := range words {
					c.wpCase(v, k, w)
				}
			}
		}
		c.State(x)
	})
}

func pairsBPE(r *Run) {
	n := len(pairRunes)
	r.Explore("pairs of characters", fmt.Sprintf("all ordered pairs of %d characters x known or unknown x options x 4 words", n), func(c *C) {
		x := string(pairRunes[c.Choose(n)])
		for _, q := range pairRunes {
			y := string(q)
			for i, terms := range [][]string{
				{"<unk>", x, "#" + y, y + "$", "#" + x + "$", "#" + y + "$"},
				{"<unk>", y, "#" + x, "#" + y, "a", "#b", x + "$"},
			} {
				terms = uniq(terms)
				v := mkVocab(terms)
				if v == nil {
					c.Skip()
				}
				ids := idsOf(terms)
				for f := 0; f < 2; f++ {
					k := &bpeConf{ids, revIDs(ids), nil, "<unk>", "#", "$", f == 1}
					if i == 1 {
						k.suffix = ""
					}
					for _, w := range []string{x + y, "a" + x + y + "b", x + x + y, y + x} {
						c.bpeConfCase(v, k, w)
					}
				}
			}
		}
		c.State(x)
	})
}

func pairsPat(r *Run, meaning bool) {
	re := []Pat{patFunc("white space", isWS), patRegexp(`\s+|\w+`), patRegexp(`(?i)ss|k|i`), patRegexp2(`\w+|[^\w\s]+`, 3), patRegexp2(`(?i)k|\s|i`, 0), patRegexp2(`'s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)|\s+`, 0), patRegexp(`.\b`), patRegexp2(`\b`, 0)}
	n := len(pairRunes)
	r.Explore("pairs of characters", fmt.Sprintf("all ordered pairs of %d characters as text of %d fixed patterns and as literals and characters searched", n, len(re)), func(c *C) {
		xr := pairRunes[c.Choose(n)]
		x := string(xr)
		own := patRune(xr)
		for _, q := range pairRunes {
			y := string(q)
			s := "a" + x + y + x + "b"
			lit := patString(x + y)
			inv := inverted(lit, 1)
			for _, p := range append([]Pat{own, lit, inv}, re...) {
				c.Step()
				if d := patJudge(&p, s, meaning); d != "" {
					c.Fail("%s", d)
				}
			}
		}
		c.State(x)
	})
}

func pairsPipeline(r *Run, norms []mNorm, pts []mPT, mods []mModel) {
	comb := [][3]int{{1, 1, 0}, {1, 6, 3}, {0, 7, 3}, {5, 2, 4}, {3, 3, 5}}
	pairTexts(r, fmt.Sprintf("%d combinations", len(comb)), true, func(c *C, s string) {
		for _, k := range comb {
			c.pipeline(s, &norms[k[0]], []*mPT{&pts[k[1]]}, &mods[k[2]], -1, 0, 0)
		}
	})
}
