package main

// Split patterns with independent definitions of what they match.

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
	"unicode"

	"github.com/dlclark/regexp2"
	nsp "github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/splitpattern"
	"github.com/nlpodyssey/gotokenizers/strutils"
)

// Seg is one capture: byte range and whether it is a match.
type Seg struct {
	S, E  int
	Match bool
}

// Pat is a pattern and its meaning (the matched spans of a text, in order).
type Pat struct {
	Name    string
	Make    func() splitpattern.SplitPattern
	Matches func(s string) [][2]int
	Inv     int // number of inversions around it
}

// Segs is the full expected capture list.
func (p *Pat) Segs(s string) []Seg {
	var out []Seg
	if s == "" {
		out = []Seg{{0, 0, false}}
	} else {
		pos := 0
		for _, m := range p.Matches(s) {
			if m[0] > pos {
				out = append(out, Seg{pos, m[0], false})
			}
			out = append(out, Seg{m[0], m[1], true})
			pos = m[1]
		}
		if pos < len(s) {
			out = append(out, Seg{pos, len(s), false})
		}
	}
	if p.Inv%2 == 1 {
		for i := range out {
			out[i].Match = !out[i].Match
		}
	}
	return out
}

func capturesOf(cs []splitpattern.Capture) []Seg {
	out := make([]Seg, len(cs))
	for i, c := range cs {
		out[i] = Seg{c.Offsets.Start, c.Offsets.End, c.IsMatch}
	}
	return out
}

func sameSegs(a, b []Seg) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func toCaptures(a []Seg) []splitpattern.Capture {
	out := make([]splitpattern.Capture, len(a))
	for i, x := range a {
		out[i] = splitpattern.Capture{Offsets: strutils.ByteOffsets{Start: x.S, End: x.E}, IsMatch: x.Match}
	}
	return out
}

// predMatches are the characters accepted by f, each alone.
func predMatches(s string, f func(rune) bool) [][2]int {
	var out [][2]int
	for i, r := range s {
		if f(r) {
			out = append(out, [2]int{i, i + len(string(r))})
		}
	}
	return out
}

func patRune(x rune) Pat {
	return Pat{Name: fmt.Sprintf("rune %q", x), Make: func() splitpattern.SplitPattern { return splitpattern.FromRune(x) },
		Matches: func(s string) [][2]int { return predMatches(s, func(y rune) bool { return y == x }) }}
}

func patFunc(name string, f func(rune) bool) Pat {
	return Pat{Name: "func " + name, Make: func() splitpattern.SplitPattern { return splitpattern.FromFunc(f) },
		Matches: func(s string) [][2]int { return predMatches(s, f) }}
}

func patString(lit string) Pat {
	return Pat{Name: fmt.Sprintf("string %q", lit), Make: func() splitpattern.SplitPattern { return splitpattern.FromString(lit) },
		Matches: func(s string) [][2]int {
			var out [][2]int
			if lit == "" {
				return nil
			}
			for pos := 0; ; {
				i := strings.Index(s[pos:], lit)
				if i < 0 {
					return out
				}
				out = append(out, [2]int{pos + i, pos + i + len(lit)})
				pos += i + len(lit)
			}
		}}
}

func patRegexp(expr string) Pat {
	re := regexp.MustCompile(expr)
	return Pat{Name: "regexp " + expr, Make: func() splitpattern.SplitPattern { return splitpattern.FromRegexp(re) },
		Matches: func(s string) [][2]int {
			var out [][2]int
			for _, m := range re.FindAllStringIndex(s, -1) {
				out = append(out, [2]int{m[0], m[1]})
			}
			return out
		}}
}

// regexp2Matches asks the engine directly, on code points.
func regexp2Matches(re *regexp2.Regexp, s string) [][2]int {
	rs := []rune(s)
	off := make([]int, len(rs)+1)
	for i, r := range rs {
		off[i+1] = off[i] + len(string(r))
	}
	var out [][2]int
	m, err := re.FindRunesMatch(rs)
	for m != nil && err == nil {
		out = append(out, [2]int{off[m.Index], off[m.Index+m.Length]})
		m, err = re.FindNextMatch(m)
	}
	if err != nil {
		fatalf("regexp2: %v", err)
	}
	sort.SliceStable(out, func(i, j int) bool {
		if out[i][0] != out[j][0] {
			return out[i][0] < out[j][0]
		}
		return out[i][1] < out[j][1]
	})
	return out
}

func patRegexp2(expr string, opt regexp2.RegexOptions) Pat {
	re := regexp2.MustCompile(expr, opt)
	return Pat{Name: fmt.Sprintf("regexp2 %s opt %x", expr, int(opt)), Make: func() splitpattern.SplitPattern { return splitpattern.FromRegexp2(re) },
		Matches: func(s string) [][2]int { return regexp2Matches(re, s) }}
}

func inverted(p Pat, times int) Pat {
	q := p
	q.Inv = p.Inv + times
	q.Name = strings.Repeat("not ", times) + p.Name
	q.Make = func() splitpattern.SplitPattern {
		sp := p.Make()
		for i := 0; i < times; i++ {
			sp = splitpattern.Invert(sp)
		}
		return sp
	}
	return q
}

var patAlpha = []rune("aAé京 .")

func stdRegexps() []string {
	return []string{`a`, `a+`, `a*`, `[aé]`, `é|京`, `x?`, `^`, `$`, `\b`, ``, `(?i)a`, `\s+`, `.`, `(a)(é)?`, `[^a]+`, `京*`, `a*?`, `\w+|[^\w\s]+`, `(?:)|a`, `é?$`, `(?s).+`, `aA|a`, `[[:^ascii:]]`, `\x{4eac}`, `\pL+`}
}

type re2 struct {
	e string
	o regexp2.RegexOptions
}

func backRegexps() []re2 {
	var out []re2
	for _, e := range []string{`a`, `a+`, `a*`, `[aé]+`, `é|京`, `^`, `$`, `\b`, ``, `\s+(?!\S)|\s+`, `a(?!a)`, `(?<=a)é`, `(.)\1`, `\w+|[^\w\s]+`, ` ?\p{L}+`, `(?=京)`, `a*?`, `é?$`} {
		for _, o := range []regexp2.RegexOptions{0, regexp2.IgnoreCase, regexp2.IgnoreCase | regexp2.Multiline, regexp2.RightToLeft} {
			if o == regexp2.RightToLeft && matchesEmpty(e) {
				continue // the engine itself (regexp2 v1.4.0) never stops enumerating these
			}
			out = append(out, re2{e, o})
		}
	}
	out = append(out, re2{`a.é`, regexp2.Singleline}, re2{`a b`, regexp2.IgnorePatternWhitespace}, re2{`(a)|(?<n>é)`, regexp2.ExplicitCapture}, re2{`\w+`, regexp2.ECMAScript}, re2{`\w+|\W`, regexp2.RightToLeft}, re2{`\p{L}`, regexp2.RE2})
	return out
}

func literals() []string {
	out := texts([]rune("aé京."), 2)[0:]
	return uniq(append(out, "aa", "aéa", "京京", "aA", "a.", ".*", "[a", "(", ")", "|", "^", "$", "\\", "a+", "a?", "{1}", "\\Q", "\\E", "\\d", "]", "é.", " ", "  ", "a a", "aAé京", "."))
}

// matchesEmpty: expressions of the catalogue that can match the empty string.
func matchesEmpty(e string) bool {
	switch e {
	case `a*`, `^`, `$`, `\b`, ``, `(?=京)`, `a*?`, `é?$`:
		return true
	}
	return false
}

// patternKit is every pattern of the catalogue (rich) or a representative part.
func patternKit(rich bool) []Pat {
	var ps []Pat
	for _, x := range patAlpha {
		ps = append(ps, patRune(x))
	}
	ps = append(ps, patRune('x'), patRune(0), patRune(0xFFFD), patRune('𝔾'))
	for mask := 0; mask < 1<<len(patAlpha); mask++ {
		if !rich && mask%9 != 0 {
			continue
		}
		mask := mask
		ps = append(ps, patFunc(fmt.Sprintf("mask %06b of %q", mask, string(patAlpha)), func(r rune) bool {
			for i, y := range patAlpha {
				if y == r {
					return mask>>i&1 == 1
				}
			}
			return false
		}))
	}
	ps = append(ps, patFunc("white space", isWS), patFunc("upper", unicode.IsUpper), patFunc("not ascii", func(r rune) bool { return r >= 0x80 }))
	for _, l := range literals() {
		ps = append(ps, patString(l))
	}
	for _, e := range stdRegexps() {
		ps = append(ps, patRegexp(e))
	}
	for i, e := range backRegexps() {
		if !rich && i%3 != 0 {
			continue
		}
		ps = append(ps, patRegexp2(e.e, e.o))
	}
	n := len(ps)
	for i := 0; i < n; i++ {
		if rich || i%4 == 0 {
			ps = append(ps, inverted(ps[i], 1))
		}
		if rich && i%3 == 0 {
			ps = append(ps, inverted(ps[i], 2), inverted(ps[i], 3))
		}
	}
	return ps
}

// scriptedPattern returns given captures (or an error) and keeps the slice it handed out.
type scriptedPattern struct {
	caps  []splitpattern.Capture
	err   error
	calls int
	got   []string
}

func (p *scriptedPattern) FindMatches(s string) ([]splitpattern.Capture, error) {
	p.calls++
	p.got = append(p.got, s)
	return p.caps, p.err
}

// chooseSegs picks a segmentation of text into captures, each match or not, with at most
// maxEmpty empty matches in between.
func (c *C) chooseSegs(text string, maxEmpty int) []Seg {
	st := charStarts(text)
	var out []Seg
	if text == "" {
		return []Seg{{0, 0, c.Bool()}}
	}
	empties := 0
	i := 0
	for {
		if empties < maxEmpty && c.Bool() {
			out = append(out, Seg{st[i], st[i], true})
			empties++
		}
		if i == len(st)-1 {
			break
		}
		n := 1 + c.Choose(len(st)-1-i)
		out = append(out, Seg{st[i], st[i+n], c.Bool()})
		i += n
	}
	return out
}

// ---------------------------------------------------------------- splitting

type mode struct {
	name string
	b    nsp.SplitDelimiterBehavior
}

var modes = []mode{
	{"removed", nsp.SplitDelimiterRemoved},
	{"isolated", nsp.SplitDelimiterIsolated},
	{"merged-with-previous", nsp.SplitDelimiterMergedWithPrevious},
	{"merged-with-next", nsp.SplitDelimiterMergedWithNext},
	{"contiguous", nsp.SplitDelimiterContiguous},
}

// splitSpans is the meaning of a mode: the byte spans of the pieces, in order.
func splitSpans(segs []Seg, mode int) [][2]int {
	var out [][2]int
	switch mode {
	case 0:
		for _, s := range segs {
			if !s.Match {
				out = append(out, [2]int{s.S, s.E})
			}
		}
	case 1:
		for _, s := range segs {
			out = append(out, [2]int{s.S, s.E})
		}
	case 2: // a match joins the segment before it, unless that is a match or absent
		for i, s := range segs {
			if s.Match && i > 0 && !segs[i-1].Match {
				out[len(out)-1][1] = s.E
			} else {
				out = append(out, [2]int{s.S, s.E})
			}
		}
	case 3: // a match joins the segment after it, unless that is a match or absent
		for i := 0; i < len(segs); i++ {
			if segs[i].Match && i+1 < len(segs) && !segs[i+1].Match {
				out = append(out, [2]int{segs[i].S, segs[i+1].E})
				i++
			} else {
				out = append(out, [2]int{segs[i].S, segs[i].E})
			}
		}
	case 4:
		for i, s := range segs {
			if i > 0 && segs[i-1].Match == s.Match {
				out[len(out)-1][1] = s.E
			} else {
				out = append(out, [2]int{s.S, s.E})
			}
		}
	}
	return out
}

// splitDiff compares real pieces with the spans on the model.
func splitDiff(got []*NS, m MS, spans [][2]int) string {
	text := m.Text()
	if len(got) != len(spans) {
		var g, w []string
		for _, p := range got {
			g = append(g, p.Get())
		}
		for _, s := range spans {
			w = append(w, text[s[0]:s[1]])
		}
		return fmt.Sprintf("%d pieces %q, expected %d: %q", len(got), g, len(w), w)
	}
	for i, s := range spans {
		if got[i] == nil {
			return fmt.Sprintf("piece %d is nil", i)
		}
		if s[0] == s[1] {
			if got[i].Get() != "" {
				return fmt.Sprintf("piece %d is %q, expected to be empty", i, got[i].Get())
			}
			continue
		}
		x, ok1 := m.cellAt(s[0])
		y, ok2 := m.cellAt(s[1])
		if !ok1 || !ok2 {
			fatalf("span %v cuts a character", s)
		}
		if d := cmpAll(got[i], mSliceN(m, x, y)); d != "" {
			return fmt.Sprintf("piece %d: %s", i, d)
		}
	}
	return ""
}

// cellMatches converts matched byte spans to cell spans.
func cellMatches(m MS, segs []Seg) [][2]int {
	var out [][2]int
	for _, s := range segs {
		if s.Match {
			x, ok1 := m.cellAt(s.S)
			y, ok2 := m.cellAt(s.E)
			if !ok1 || !ok2 {
				fatalf("capture %v cuts a character of %q", s, m.Text())
			}
			out = append(out, [2]int{x, y})
		}
	}
	return out
}
