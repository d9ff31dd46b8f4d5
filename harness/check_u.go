package main

// U01, U02: offsets conversion and character boundaries.

import (
	"fmt"
	"math"
	"strings"

	"github.com/nlpodyssey/gotokenizers/strutils"
)

func init() {
	register("U01", "every text of the bound and every character-aligned byte range of it, every Unicode scalar value, long texts; compared with counting characters", checkU01)
	register("U02", "every text of the bound, every Unicode scalar value, long texts, at every index from below 0 to beyond the end and at extreme integers; compared with a list of character starts", checkU02)
}

var widthAlpha = []rune{'a', 'é', '京', '𝔾', 0, 0xFFFD, 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF}

func (c *C) u01(s string, full bool) {
	var conv *strutils.BytesToRuneOffsetConverter
	if pm := try(func() { conv = strutils.NewBytesToRuneOffsetConverter(s) }); pm != "" {
		c.Fail("converter of %s: %s", quoteTrunc(s), pm)
	}
	st := charStarts(s)
	one := func(i, j int) {
		var got strutils.RuneOffsets
		if pm := try(func() { got = conv.Convert(strutils.ByteOffsets{Start: st[i], End: st[j]}) }); pm != "" {
			c.Fail("bytes %d-%d of %s: %s", st[i], st[j], quoteTrunc(s), pm)
		}
		if got.Start != i || got.End != j {
			c.Fail("bytes %d-%d of %s convert to characters %d-%d, expected %d-%d", st[i], st[j], quoteTrunc(s), got.Start, got.End, i, j)
		}
	}
	n := len(st) - 1
	for i := 0; i <= n; i++ {
		if full {
			for j := i; j <= n; j++ {
				one(i, j)
			}
		} else {
			one(i, i)
			one(0, i)
			one(i, n)
			if i < n {
				one(i, i+1)
			}
		}
	}
	c.Step()
	c.State(s)
}

func (c *C) u02(s string) {
	st := map[int]bool{}
	for _, i := range charStarts(s) {
		st[i] = true
	}
	one := func(i int) {
		var got bool
		if pm := try(func() { got = strutils.IsRuneBoundary(s, i) }); pm != "" {
			c.Fail("index %d of %s: %s", i, quoteTrunc(s), pm)
		}
		if got != st[i] {
			c.Fail("index %d of %s: boundary=%v, expected %v", i, quoteTrunc(s), got, st[i])
		}
	}
	for i := -6; i <= len(s)+6; i++ {
		one(i)
	}
	for _, b := range []int{math.MinInt64, math.MinInt32, -1 << 16, -257, -256, -129, -128, -65, -64, 1 << 16, math.MaxInt32, math.MaxInt64, 1 << 32, -(1 << 32)} {
		for d := -1; d <= 1; d++ {
			i := b + d
			if i > len(s) || i < 0 {
				one(i)
			}
		}
	}
	c.Step()
	c.State(s)
}

func uSpaces(r *Run, f func(c *C, s string, full bool)) {
	r.Explore("texts", fmt.Sprintf("all texts of <=%d characters over 13 of every width and at the width borders", r.Pick(4, 5)), func(c *C) {
		s := c.Text(widthAlpha, r.Pick(4, 5))
		c.Logf("%q", s)
		f(c, s, true)
	})
	r.Explore("longer texts", fmt.Sprintf("all texts of <=%d characters of every combination of widths", r.Pick(7, 9)), func(c *C) {
		s := string(c.chooseWidths(c.Choose(r.Pick(8, 9))))
		f(c, s, true)
	})
	r.Explore("code points", "every Unicode scalar value alone and between others", func(c *C) {
		b := c.Choose(nBlocks)
		for x := rune(b * 256); x < rune(b*256+256); x++ {
			if validRune(x) {
				f(c, "a"+string(x)+"é", true)
				f(c, string(x), true)
			}
		}
	})
	sz := append(sizes(r.Thorough), 8191, 8192, 8193, 16383, 16384, 16385, 21845, 21846, 32767, 32768, 32769, 65535, 65536, 65537)
	r.Explore("long texts", "pre + unit^n + post for every size, all ranges touching each boundary", func(c *C) {
		u := []string{"a", "é", "京", "𝔾", "aé京𝔾"}[c.Choose(5)]
		s := longText([]string{"", "a", "京"}[c.Choose(3)], u, sz[c.Choose(len(sz))], []string{"", "a", "é𝔾"}[c.Choose(3)])
		f(c, s, false)
	})
	r.Explore("code points far into a text", "every Unicode scalar value after a run of 255, 65530 or 70001 characters", func(c *C) {
		k := []int{255, 65530, 70001}[c.Choose(3)]
		const group = 32
		b := c.Choose(nBlocks / group)
		var sb strings.Builder
		sb.WriteString(strings.Repeat("a", k))
		for x := rune(b * group * 256); x < rune((b+1)*group*256); x++ {
			if validRune(x) {
				sb.WriteRune(x)
			}
		}
		f(c, sb.String(), false)
	})
	r.Explore("mixed long texts", "one character of another width at every position of a run", func(c *C) {
		n := []int{3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129}[c.Choose(17)]
		u, x := widthRunes[c.Choose(4)][0], widthRunes[c.Choose(4)][1]
		p := c.Choose(n + 1)
		f(c, longText("", string(u), p, string(x))+longText("", string(u), n-p, ""), n < 40)
	})
}

func checkU01(r *Run) { uSpaces(r, func(c *C, s string, full bool) { c.u01(s, full) }) }

func checkU02(r *Run) { uSpaces(r, func(c *C, s string, full bool) { c.u02(s) }) }
