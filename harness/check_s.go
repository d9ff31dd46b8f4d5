package main

// S01 (coverage), S02 (meaning) of split patterns.

import (
	"fmt"

	"github.com/nlpodyssey/gotokenizers/splitpattern"
)

func init() {
	register("S01", "every pattern of a catalogue of all six kinds on every short text, all code points and long texts; coverage contract", func(r *Run) { checkPatterns(r, false) })
	register("S02", "every pattern of a catalogue of all six kinds on every short text, all code points and long texts; captures equal to independent matchers (engines called directly, on code points)", func(r *Run) { checkPatterns(r, true) })
}

// coverage is the S01 contract.
func coverage(s string, inv int, cs []Seg) string {
	if s == "" {
		if len(cs) != 1 || cs[0] != (Seg{0, 0, inv%2 == 1}) {
			return fmt.Sprintf("empty text gives %v", cs)
		}
		return ""
	}
	pos := 0
	for i, c := range cs {
		if c.S != pos {
			return fmt.Sprintf("capture %d of %v does not start where the previous one ended", i, cs)
		}
		if c.E < c.S || c.E > len(s) {
			return fmt.Sprintf("capture %d of %v is reversed or out of bounds", i, cs)
		}
		if c.E < len(s) && s[c.E]&0xC0 == 0x80 {
			return fmt.Sprintf("capture %d of %v ends inside a character", i, cs)
		}
		pos = c.E
	}
	if pos != len(s) {
		return fmt.Sprintf("captures %v end at %d of %d", cs, pos, len(s))
	}
	return ""
}

func patJudge(p *Pat, s string, meaning bool) string {
	var cs []splitpattern.Capture
	var err error
	if pm := try(func() { cs, err = p.Make().FindMatches(s) }); pm != "" {
		return fmt.Sprintf("%s on %s: %s", p.Name, quoteTrunc(s), pm)
	}
	if err != nil {
		return fmt.Sprintf("%s on %s: error %v", p.Name, quoteTrunc(s), err)
	}
	got := capturesOf(cs)
	if meaning {
		if want := p.Segs(s); !sameSegs(got, want) {
			return fmt.Sprintf("%s on %s: captures %.300s, expected %.300s", p.Name, quoteTrunc(s), fmt.Sprint(got), fmt.Sprint(want))
		}
		return ""
	}
	if d := coverage(s, p.Inv, got); d != "" {
		return fmt.Sprintf("%s on %s: %.300s", p.Name, quoteTrunc(s), d)
	}
	return ""
}

func checkPatterns(r *Run, meaning bool) {
	kit := patternKit(true)
	n := r.Pick(4, 5)
	r.Explore("catalogue", fmt.Sprintf("%d patterns, texts <=%d chars over %q", len(kit), n, string(patAlpha)), func(c *C) {
		p := &kit[c.Choose(len(kit))]
		s := c.Text(patAlpha, n)
		c.Step()
		c.State(s)
		if d := patJudge(p, s, meaning); d != "" {
			c.Fail("%s", d)
		}
		c.Logf("%s on %q: %v", p.Name, s, p.Segs(s))
	})
	small := []rune("aé京")
	lits := texts(small, 3)
	r.Explore("literals", fmt.Sprintf("every literal <=3 over {a é 京}, texts <=%d", r.Pick(6, 7)), func(c *C) {
		p := patString(lits[c.Choose(len(lits))])
		if c.Bool() {
			p = inverted(p, 1)
		}
		s := c.Text(small, r.Pick(6, 7))
		c.Step()
		if d := patJudge(&p, s, meaning); d != "" {
			c.Fail("%s", d)
		}
		c.Outcome(fmt.Sprint(p.Segs(s)))
	})
	r.Explore("predicates on wider texts", fmt.Sprintf("every predicate on distinct characters, every width combination, %d chars", r.Pick(5, 6)), func(c *C) {
		rs := c.chooseWidths(1 + c.Choose(r.Pick(5, 6)))
		mask := c.Choose(1 << len(rs))
		acc := map[rune]bool{}
		for i, x := range rs {
			acc[x] = mask>>i&1 == 1
		}
		p := patFunc("mask", func(x rune) bool { return acc[x] })
		if mask == 1<<(len(rs)-1) && c.Bool() {
			p = patRune(rs[len(rs)-1])
		}
		if c.Bool() {
			p = inverted(p, 1)
		}
		c.Step()
		if d := patJudge(&p, string(rs), meaning); d != "" {
			c.Fail("mask %b: %s", mask, d)
		}
	})
	// all code points: as rune pattern, literal, predicate, and as text around regexps
	fixed := []Pat{patFunc("white space", isWS), patRegexp(`\s+`), patRegexp(`.`), patRegexp(`(?i)k`), patRegexp2(`\w+|[^\w\s]+`, 3), patRegexp2(`(?i)k|\s`, 0), patRegexp(``), patRegexp2(`\p{L}`, 0)}
	r.Explore("code points", "all code points as character, literal and text", func(c *C) {
		blk := c.Choose(nBlocks)
		for i := 0; i < 0x100; i++ {
			x := rune(blk*0x100 + i)
			if !validRune(x) {
				continue
			}
			s := "a" + string(x) + string(x) + "k京"
			xs := string(x)
			own := []Pat{patRune(x), patFunc("==", func(y rune) bool { return y == x }), patRune('b'), patFunc("none", func(rune) bool { return false }), patFunc("all", func(rune) bool { return true })}
			for q := range own {
				for _, s := range []string{xs, "a" + xs, xs + "a", xs + xs} {
					c.Step()
					if d := patJudge(&own[q], s, meaning); d != "" {
						c.Fail("U+%04X: %s", x, d)
					}
				}
			}
			if x < 0x3100 || x >= 0xFF00 && x < 0x10000 || x%16 == 0 || r.Thorough {
				for q := range fixed {
					for _, s := range []string{xs, "a" + xs} {
						c.Step()
						if d := patJudge(&fixed[q], s, meaning); d != "" {
							c.Fail("U+%04X: %s", x, d)
						}
					}
				}
			}
			ps := append([]Pat{patRune(x), patFunc("==", func(y rune) bool { return y == x })}, fixed...)
			if x < 0x300 || x%16 == 0 || r.Thorough {
				ps = append(ps, patString(string(x)), patString(string(x)+"k"))
			}
			for q := range ps {
				c.Step()
				if d := patJudge(&ps[q], s, meaning); d != "" {
					c.Fail("U+%04X: %s", x, d)
				}
			}
		}
	})
	// long texts
	kit2 := patternKit(false)
	sz := fewSizes(r.Thorough)
	units := []string{"a", "é", "京", " ", "a京", "aé ", ".aA"}
	r.Explore("long texts", fmt.Sprintf("%d patterns, pre+unit^n+post", len(kit2)), func(c *C) {
		p := &kit2[c.Choose(len(kit2))]
		u := units[c.Choose(len(units))]
		s := longText([]string{"", "é"}[c.Choose(2)], u, sz[c.Choose(len(sz))], []string{"", "a.", "京"}[c.Choose(3)])
		c.Step()
		if d := patJudge(p, s, meaning); d != "" {
			c.Fail("%s", d)
		}
	})
	// inversion of arbitrary patterns
	r.Explore("inversion of custom patterns", "every segmentation of texts <=4 chars, 0..3 inversions", func(c *C) {
		s := c.Text([]rune("a京"), 4)
		segs := c.chooseSegs(s, 1)
		k := c.Choose(4)
		var sp splitpattern.SplitPattern = &scriptedPattern{caps: toCaptures(segs)}
		if c.Bool() {
			sp = &scriptedPattern{err: errScripted}
			for i := 0; i < k; i++ {
				sp = splitpattern.Invert(sp)
			}
			if _, err := sp.FindMatches(s); err != errScripted && meaning {
				c.Fail("error of the inner pattern became %v", err)
			}
			return
		}
		for i := 0; i < k; i++ {
			sp = splitpattern.Invert(sp)
		}
		got, err := sp.FindMatches(s)
		c.Step()
		want := append([]Seg{}, segs...)
		for i := range want {
			want[i].Match = want[i].Match != (k%2 == 1)
		}
		if err != nil {
			c.Fail("error %v", err)
		}
		if meaning && !sameSegs(capturesOf(got), want) {
			c.Fail("%d inversions of %v give %v", k, segs, got)
		}
		if !meaning && len(s) > 0 {
			if d := coverage(s, k, capturesOf(got)); d != "" {
				c.Fail("%d inversions of %v: %s", k, segs, d)
			}
		}
	})
	hugeS(r, meaning)
	pairsPat(r, meaning)
}
