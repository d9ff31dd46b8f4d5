package main

// Reference model of normalized strings: a list of cells, each a character with
// the interval of original bytes it derives from. Shares no code with /repo.

import (
	"fmt"
	"reflect"
	"strings"
	"unicode"
	"unicode/utf8"

	nsp "github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/splitpattern"
)

type NS = nsp.NormalizedString

// Cell is one normalized character and its source interval (relative to MS.Orig).
type Cell struct {
	R    rune
	S, E int
}

// MS is the model of a normalized string.
type MS struct {
	Root  string // the text everything was cut from
	Orig  string
	Shift int
	Cells []Cell
}

func newMS(s string) MS {
	m := MS{Root: s, Orig: s}
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		m.Cells = append(m.Cells, Cell{r, i, i + n})
		i += n
	}
	return m
}

func (m MS) Text() string {
	var b strings.Builder
	for _, c := range m.Cells {
		b.WriteRune(c.R)
	}
	return b.String()
}

func (m MS) Key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%q@%d:", m.Orig, m.Shift)
	for _, c := range m.Cells {
		b.WriteRune(c.R)
		b.WriteByte(byte(c.S))
		b.WriteByte(byte(c.E))
	}
	return b.String()
}

func (m MS) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "orig=%q+%d norm=%q src=[", m.Orig, m.Shift, m.Text())
	for i, c := range m.Cells {
		if i > 0 {
			b.WriteByte(' ')
		}
		fmt.Fprintf(&b, "%c:%d-%d", c.R, c.S, c.E)
	}
	return b.String() + "]"
}

func (m MS) with(cells []Cell) MS { m.Cells = cells; return m }

// ByteAligns returns the source interval of every normalized byte.
func (m MS) ByteAligns() [][2]int {
	var out [][2]int
	for _, c := range m.Cells {
		for i := 0; i < utf8.RuneLen(c.R); i++ {
			out = append(out, [2]int{c.S, c.E})
		}
	}
	return out
}

// cellAt maps a byte offset of the normalized text to a cell index (ok if on a boundary).
func (m MS) cellAt(off int) (int, bool) {
	p := 0
	for i, c := range m.Cells {
		if p == off {
			return i, true
		}
		p += utf8.RuneLen(c.R)
	}
	return len(m.Cells), p == off
}

// offsetOf is the byte offset of cell i in the normalized text.
func (m MS) offsetOf(i int) int {
	p := 0
	for _, c := range m.Cells[:i] {
		p += utf8.RuneLen(c.R)
	}
	return p
}

func isWS(r rune) bool { return unicode.Is(unicode.White_Space, r) }

func mFilter(m MS, keep func(rune) bool) MS {
	var out []Cell
	for _, c := range m.Cells {
		if keep(c.R) {
			out = append(out, c)
		}
	}
	return m.with(out)
}

func mMap(m MS, f func(rune) rune) MS {
	out := make([]Cell, len(m.Cells))
	for i, c := range m.Cells {
		out[i] = Cell{f(c.R), c.S, c.E}
	}
	return m.with(out)
}

func mTrim(m MS, left, right bool) MS {
	i, j := 0, len(m.Cells)
	if left {
		for i < j && isWS(m.Cells[i].R) {
			i++
		}
	}
	if right {
		for j > i && isWS(m.Cells[j-1].R) {
			j--
		}
	}
	return m.with(append([]Cell{}, m.Cells[i:j]...))
}

func mPrepend(m MS, s string) MS {
	if len(m.Cells) == 0 {
		return m
	}
	var out []Cell
	for _, r := range s {
		out = append(out, Cell{r, m.Cells[0].S, m.Cells[0].E})
	}
	return m.with(append(out, m.Cells...))
}

func mAppend(m MS, s string) MS {
	n := len(m.Cells)
	if n == 0 {
		return m
	}
	out := append([]Cell{}, m.Cells...)
	for _, r := range s {
		out = append(out, Cell{r, m.Cells[n-1].S, m.Cells[n-1].E})
	}
	return m.with(out)
}

// mReplace substitutes each matched cell range [a,b) by content.
func mReplace(m MS, matches [][2]int, content string) MS {
	var out []Cell
	pos := 0
	for _, mt := range matches {
		out = append(out, m.Cells[pos:mt[0]]...)
		var src Cell
		if mt[1] > mt[0] {
			src = m.Cells[mt[1]-1]
		} else if len(out) > 0 {
			src = out[len(out)-1]
		}
		for _, r := range content {
			out = append(out, Cell{r, src.S, src.E})
		}
		pos = mt[1]
	}
	out = append(out, m.Cells[pos:]...)
	return m.with(out)
}

// mSliceN cuts the non-empty cell range [i,j).
func mSliceN(m MS, i, j int) MS {
	s, e := m.Cells[i].S, m.Cells[j-1].E
	return mCut(m, m.Cells[i:j], s, e)
}

// mSliceO cuts the original byte range [a,b): the cells whose non-empty source lies inside.
func mSliceO(m MS, a, b int) MS {
	var in []Cell
	for _, c := range m.Cells {
		if c.S < c.E && c.S >= a && c.E <= b {
			in = append(in, c)
		}
	}
	return mCut(m, in, a, b)
}

func mCut(m MS, cells []Cell, s, e int) MS {
	out := make([]Cell, len(cells))
	for i, c := range cells {
		out[i] = Cell{c.R, c.S - s, c.E - s}
	}
	return MS{Root: m.Root, Orig: m.Orig[s:e], Shift: m.Shift + s, Cells: out}
}

// ---------------------------------------------------------------- observation of the real object

func real2(o nsp.OriginalRange) [2]int { return [2]int{o.Start(), o.End()} }

// cmpText compares everything but alignments.
func cmpText(n *NS, m MS) string {
	t := m.Text()
	switch {
	case n.Get() != t:
		return fmt.Sprintf("normalized text is %q, expected %q", n.Get(), t)
	case n.GetOriginal() != m.Orig:
		return fmt.Sprintf("original text is %q, expected %q", n.GetOriginal(), m.Orig)
	case n.Len() != len(t):
		return fmt.Sprintf("Len()=%d for %q", n.Len(), t)
	case n.OriginalLen() != len(m.Orig):
		return fmt.Sprintf("OriginalLen()=%d for %q", n.OriginalLen(), m.Orig)
	case n.IsEmpty() != (t == ""):
		return fmt.Sprintf("IsEmpty()=%v for %q", n.IsEmpty(), t)
	}
	o := n.OriginalOffsets()
	if o.Start != m.Shift || o.End != m.Shift+len(m.Orig) {
		return fmt.Sprintf("original offsets %d-%d, expected %d-%d", o.Start, o.End, m.Shift, m.Shift+len(m.Orig))
	}
	return ""
}

// cmpAlign compares the source of every normalized byte.
func cmpAlign(n *NS, m MS) string {
	want := m.ByteAligns()
	for i := range want {
		o, ok := n.CoerceRangeToOriginal(nsp.NewNormalizedRange(i, i+1))
		if !ok || o.Start() != want[i][0] || o.End() != want[i][1] {
			return fmt.Sprintf("byte %d of normalized %q maps to original %d-%d (ok=%v), expected %d-%d of %q",
				i, n.Get(), o.Start(), o.End(), ok, want[i][0], want[i][1], m.Orig)
		}
	}
	return ""
}

func cmpAll(n *NS, m MS) string {
	if d := cmpText(n, m); d != "" {
		return d
	}
	return cmpAlign(n, m)
}

// fields reads the (start,end) pairs of a slice of AlignmentRange (fields are not exported).
func alignPairs(a []nsp.AlignmentRange) [][2]int {
	out := make([][2]int, len(a))
	for i := range a {
		v := reflect.ValueOf(a[i])
		if v.NumField() != 2 {
			fatalf("AlignmentRange has %d fields", v.NumField())
		}
		out[i] = [2]int{int(v.Field(0).Int()), int(v.Field(1).Int())}
	}
	return out
}

// snapshot is a full observation of a real normalized string as a string.
func snapshot(n *NS) string { return snapshotNoInv(n) + " inv" + safeInverse(n) }

func snapshotNoInv(n *NS) string {
	var b strings.Builder
	o := n.OriginalOffsets()
	fmt.Fprintf(&b, "%q %q %d-%d len=%d/%d empty=%v [", n.Get(), n.GetOriginal(), o.Start, o.End, n.Len(), n.OriginalLen(), n.IsEmpty())
	for i := 0; i < n.Len(); i++ {
		r, ok := n.CoerceRangeToOriginal(nsp.NewNormalizedRange(i, i+1))
		fmt.Fprintf(&b, "%d-%d%v ", r.Start(), r.End(), ok)
	}
	b.WriteString("]")
	return b.String()
}

func safeInverse(n *NS) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = fmt.Sprint("panic ", e)
		}
	}()
	return fmt.Sprint(alignPairs(n.OriginalAlignments()))
}

// try runs f and returns a non-empty message if it panics.
func try(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			switch e.(type) {
			case failure, skipCase:
				panic(e)
			}
			msg = fmt.Sprintf("panic: %v%s", e, panicSite())
		}
	}()
	f()
	return ""
}

// ---------------------------------------------------------------- operations

// Op is one operation on a normalized string, on both sides. Real returns the
// resulting object (a new one for slices). Model reports ok=false when the
// operation is outside the domain in that state.
type Op struct {
	Name  string
	Real  func(n *NS) (*NS, error)
	Model func(m MS) (MS, bool)
}

func editOp(name string, real func(n *NS), model func(m MS) MS) Op {
	return Op{name, func(n *NS) (*NS, error) { real(n); return n, nil }, func(m MS) (MS, bool) { return model(m), true }}
}

func isASCII(r rune) bool { return r < 0x80 }

// filterOps .. appendOps make up the edits of N01/N02.
func editOps(rich bool) []Op {
	var ops []Op
	filter := func(name string, keep func(rune) bool) {
		ops = append(ops, editOp("Filter("+name+")", func(n *NS) { n.Filter(keep) }, func(m MS) MS { return mFilter(m, keep) }))
	}
	mapf := func(name string, f func(rune) rune) {
		ops = append(ops, editOp("Map("+name+")", func(n *NS) { n.Map(f) }, func(m MS) MS { return mMap(m, f) }))
	}
	filter("drop a", func(r rune) bool { return r != 'a' })
	filter("drop non-ascii", isASCII)
	filter("drop ascii", func(r rune) bool { return !isASCII(r) })
	filter("drop white space", func(r rune) bool { return !isWS(r) })
	mapf("a>é é>a 京>x", func(r rune) rune {
		switch r {
		case 'a':
			return 'é'
		case 'é':
			return 'a'
		case '京':
			return 'x'
		}
		return r
	})
	ops = append(ops,
		editOp("ToLower", func(n *NS) { n.ToLower() }, func(m MS) MS { return mMap(m, unicode.ToLower) }),
		editOp("ToUpper", func(n *NS) { n.ToUpper() }, func(m MS) MS { return mMap(m, unicode.ToUpper) }),
		editOp("Trim", func(n *NS) { n.Trim() }, func(m MS) MS { return mTrim(m, true, true) }),
		editOp("TrimLeft", func(n *NS) { n.TrimLeft() }, func(m MS) MS { return mTrim(m, true, false) }),
		editOp("TrimRight", func(n *NS) { n.TrimRight() }, func(m MS) MS { return mTrim(m, false, true) }),
	)
	pre := []string{"x", "é京"}
	app := []string{"y", "京é"}
	if rich {
		filter("drop all", func(r rune) bool { return false })
		filter("keep all", func(r rune) bool { return true })
		mapf("all>𝔾", func(r rune) rune { return '𝔾' })
		mapf("ws>_", func(r rune) rune {
			if isWS(r) {
				return '_'
			}
			return r
		})
		ops = append(ops, editOp("TrimLeftRight(false,false)", func(n *NS) { n.TrimLeftRight(false, false) }, func(m MS) MS { return m }))
		pre = append(pre, "", " ", "\u3000a")
		app = append(app, "", " ", "a\u3000")
	}
	for _, s := range pre {
		s := s
		ops = append(ops, editOp(fmt.Sprintf("Prepend(%q)", s), func(n *NS) { n.Prepend(s) }, func(m MS) MS { return mPrepend(m, s) }))
	}
	for _, s := range app {
		s := s
		ops = append(ops, editOp(fmt.Sprintf("Append(%q)", s), func(n *NS) { n.Append(s) }, func(m MS) MS { return mAppend(m, s) }))
	}
	return ops
}

// replaceRuneOp replaces a character.
func replaceRuneOp(r rune, content string) Op {
	return Op{fmt.Sprintf("Replace(%q,%q)", r, content),
		func(n *NS) (*NS, error) { return n, n.Replace(splitpattern.FromRune(r), content) },
		func(m MS) (MS, bool) {
			var ms [][2]int
			for i, c := range m.Cells {
				if c.R == r {
					ms = append(ms, [2]int{i, i + 1})
				}
			}
			return mReplace(m, ms, content), true
		}}
}

// insertFrontOp inserts a character with empty source at the very start.
func insertFrontOp(r rune) Op {
	return Op{fmt.Sprintf("TransformRange([0,0),insert %q)", r),
		func(n *NS) (*NS, error) {
			n.TransformRange(nsp.NewNormalizedRange(0, 0), []nsp.RuneChange{{Rune: r, Change: 1}}, 0)
			return n, nil
		},
		func(m MS) (MS, bool) { return m.with(append([]Cell{{r, 0, 0}}, m.Cells...)), true }}
}

// sliceNOp cuts from cell i to cell j counted from the end.
func sliceNOp(dropFront, dropBack int) Op {
	return Op{fmt.Sprintf("SliceNorm(front-%d,back-%d chars)", dropFront, dropBack),
		func(n *NS) (*NS, error) {
			rs := []rune(n.Get())
			i, j := dropFront, len(rs)-dropBack
			if i >= j {
				return nil, fmt.Errorf("bad slice")
			}
			s, ok := n.Slice(nsp.NewNormalizedRange(len(string(rs[:i])), len(string(rs[:j]))))
			if !ok {
				return nil, fmt.Errorf("slice failed")
			}
			return s, nil
		},
		func(m MS) (MS, bool) {
			i, j := dropFront, len(m.Cells)-dropBack
			if i >= j {
				return m, false
			}
			return mSliceN(m, i, j), true
		}}
}

func sliceOOp(dropFront, dropBack int) Op {
	return Op{fmt.Sprintf("SliceOrig(front-%d,back-%d chars)", dropFront, dropBack),
		func(n *NS) (*NS, error) {
			rs := []rune(n.GetOriginal())
			i, j := dropFront, len(rs)-dropBack
			if i >= j {
				return nil, fmt.Errorf("bad slice")
			}
			s, ok := n.Slice(nsp.NewOriginalRange(len(string(rs[:i])), len(string(rs[:j]))))
			if !ok {
				return nil, fmt.Errorf("slice failed")
			}
			return s, nil
		},
		func(m MS) (MS, bool) {
			rs := []rune(m.Orig)
			i, j := dropFront, len(rs)-dropBack
			if i >= j {
				return m, false
			}
			s := mSliceO(m, len(string(rs[:i])), len(string(rs[:j])))
			if len(s.Cells) == 0 {
				return m, false // may be reported as a failure: see N05
			}
			return s, true
		}}
}

// reachOps generate the "reachable normalized strings" of N04, N05, N07.
func reachOps(rich bool) []Op {
	ops := editOps(rich)
	ops = append(ops, replaceRuneOp(' ', "京"), replaceRuneOp('a', ""), replaceRuneOp('é', "xy"), insertFrontOp('H'),
		sliceNOp(1, 0), sliceNOp(0, 1), sliceOOp(1, 0), sliceOOp(0, 1))
	if rich {
		ops = append(ops, insertFrontOp('京'), sliceNOp(1, 1), sliceOOp(1, 1), replaceRuneOp('京', "a"))
	}
	return ops
}

// ---------------------------------------------------------------- texts

// texts enumerates all texts of length <= n over alpha, shortest first.
func texts(alpha []rune, n int) []string {
	out := []string{""}
	last := []string{""}
	for k := 0; k < n; k++ {
		var next []string
		for _, t := range last {
			for _, r := range alpha {
				next = append(next, t+string(r))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

func uniq(ss []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range ss {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}
