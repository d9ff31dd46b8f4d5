package main

// Y02: histories of calls on shared objects. What a fresh object gives comes
// from a process that did nothing else before.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"unicode"

	"github.com/dlclark/regexp2"
	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/models/bpemodel"
	"github.com/nlpodyssey/gotokenizers/models/wordpiecemodel"
	nsp "github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/normalizers"
	"github.com/nlpodyssey/gotokenizers/normalizers/sequencenormalizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/splitpattern"
	"github.com/nlpodyssey/gotokenizers/strutils"
	"github.com/nlpodyssey/gotokenizers/vocabulary"
)

func init() {
	register("Y02", "every history of calls up to the bound on one object of every kind and on two objects side by side, every subset of the returned results overwritten, earlier results re-read after every call; long histories; compared with what a fresh object gives in a fresh process", checkY02,
		"a byte-pair model with dropout is outside: its results are random by design")
}

// held is a result kept by the caller.
type held struct {
	render   func() string
	scribble func()
}

// comp is a component with the inputs to try on it.
type comp struct {
	name   string
	make   func() compObj
	inputs []string
}

type compObj struct {
	call  func(in string) held
	check func() string // "" while everything handed in is as it was
}

func heldErr(err error) held {
	s := "error: " + err.Error()
	return held{func() string { return s }, func() {}}
}

func modelComp(name string, mk func() (models.Model, func() string), inputs ...string) comp {
	return comp{name, func() compObj {
		m, chk := mk()
		return compObj{func(in string) held {
			ts, err := m.Tokenize(in)
			if err != nil {
				return heldErr(err)
			}
			return held{func() string { return fmt.Sprintf("%q %v", in, ts) }, func() {
				full := ts[:cap(ts)]
				for i := range full {
					full[i] = tok(-7, "scribble", 5, 1)
				}
			}}
		}, chk}
	}, inputs}
}

func vocabWatch(v *vocabulary.Vocabulary, terms []string, mm *bpemodel.MergeMap, t mTable) func() string {
	return func() string {
		if v.Size() != len(terms) {
			return "the vocabulary handed to the model was modified"
		}
		for i, s := range terms {
			if id, ok := v.GetID(s); !ok || id != i {
				return "the vocabulary handed to the model was modified"
			}
		}
		if mm != nil {
			if len(*mm) != len(t) {
				return "the merge table handed to the model was modified"
			}
			for _, e := range t {
				if g, ok := mm.Get(e.l, e.r); !ok || g.ID != e.id || g.Rank != e.rank {
					return "the merge table handed to the model was modified"
				}
			}
		}
		return ""
	}
}

var bpeTerms = []string{"u", "a", "b", "ab", "ba", "aba", "京", "京a", "é", "aa", "bb", "##a", "##b", "a$", "##b$"}

func bpeY2Table() mTable {
	return mTable{{1, 2, 0, 3}, {2, 1, 1, 4}, {3, 1, 2, 5}, {6, 1, 3, 7}, {1, 1, 4, 9}, {2, 2, 5, 10}}
}

func bpeComp(cache int, unk, prefix, suffix string, fuse bool, inputs ...string) comp {
	name := fmt.Sprintf("bpe(cache %d, unk %q, prefix %q, suffix %q, fuse %v)", cache, unk, prefix, suffix, fuse)
	return modelComp(name, func() (models.Model, func() string) {
		v := vocabulary.NewVocabulary()
		for _, t := range bpeTerms {
			v.AddTerm(t)
		}
		t := bpeY2Table()
		mm := t.real()
		return bpemodel.New(v, mm, cache, 0, unk, prefix, suffix, fuse), vocabWatch(v, bpeTerms, mm, t)
	}, inputs...)
}

func wpComp(unk, prefix string, limit int, inputs ...string) comp {
	terms := []string{"[UNK]", "a", "##a", "b", "##b", "ab", "##ab", "京", "##京", "aa", "##é"}
	return modelComp(fmt.Sprintf("wordpiece(%q, %q, %d)", unk, prefix, limit), func() (models.Model, func() string) {
		v := vocabulary.NewVocabulary()
		for _, t := range terms {
			v.AddTerm(t)
		}
		return wordpiecemodel.New(v, unk, prefix, limit), vocabWatch(v, terms, nil, nil)
	}, inputs...)
}

func renderNS(n *NS) string {
	return snapshot(n)
}

func scribbleNS(n *NS) {
	try(func() {
		al := n.OriginalAlignments()
		for i := range al {
			al[i] = nsp.AlignmentRange{}
		}
	})
	n.Append("!scribble")
	n.Map(func(rune) rune { return '#' })
}

func renderPTS(p *PTS) string {
	var b strings.Builder
	for _, s := range p.Splits() {
		fmt.Fprintf(&b, "[%s", renderNS(s.NormalizedString))
		if s.Tokens != nil {
			fmt.Fprint(&b, *s.Tokens)
		}
		b.WriteString("] ")
	}
	return b.String()
}

func ptComp(pt mPT, inputs ...string) comp {
	return comp{"pretokenizer " + pt.name, func() compObj {
		x := pt.make()
		return compObj{func(in string) held {
			p := pretokenizedstring.FromString(in)
			if err := x.PreTokenize(p); err != nil {
				return heldErr(err)
			}
			return held{func() string { return renderPTS(p) }, func() {
				for i, s := range p.Splits() {
					scribbleNS(s.NormalizedString)
					p.Splits()[i] = pretokenizedstring.Split{NormalizedString: s.NormalizedString}
				}
			}}
		}, nil}
	}, inputs}
}

func normComp(nm mNorm, inputs ...string) comp {
	return comp{"normalizer " + nm.name, func() compObj {
		x := nm.make()
		return compObj{func(in string) held {
			n := newReal(in)
			if err := x.Normalize(n); err != nil {
				return heldErr(err)
			}
			return held{func() string { return renderNS(n) }, func() { scribbleNS(n) }}
		}, nil}
	}, inputs}
}

func patComp(p Pat, inputs ...string) comp {
	return comp{"pattern " + p.Name, func() compObj {
		x := p.Make()
		return compObj{func(in string) held {
			cs, err := x.FindMatches(in)
			if err != nil {
				return heldErr(err)
			}
			return held{func() string { return fmt.Sprintf("%q %v", in, cs) }, func() {
				full := cs[:cap(cs)]
				for i := range full {
					full[i] = splitpattern.Capture{Offsets: strutils.ByteOffsets{Start: 9, End: 3}, IsMatch: !full[i].IsMatch}
				}
			}}
		}, nil}
	}, inputs}
}

// splitComp uses one pattern for splitting and replacing whole strings.
func splitComp(p Pat, m mode, inputs ...string) comp {
	return comp{"splitting by " + p.Name + " " + m.name, func() compObj {
		x := p.Make()
		return compObj{func(in string) held {
			n := newReal(in)
			ps, err := n.Split(x, m.b)
			if err != nil {
				return heldErr(err)
			}
			q := newReal(in)
			if err := q.Replace(x, "é"); err != nil {
				return heldErr(err)
			}
			return held{func() string {
				var b strings.Builder
				for _, y := range ps {
					b.WriteString(renderNS(y) + "; ")
				}
				return b.String() + renderNS(n) + renderNS(q)
			}, func() {
				scribbleNS(q)
				for i := range ps {
					scribbleNS(ps[i])
				}
			}}
		}, nil}
	}, inputs}
}

// sharedCaptures is a pattern that hands out the same slice every time.
type sharedCaptures struct {
	m map[string][]splitpattern.Capture
}

func (p *sharedCaptures) FindMatches(s string) ([]splitpattern.Capture, error) {
	if s == "fail" {
		return nil, errScripted
	}
	return p.m[s], nil
}

func newShared() *sharedCaptures {
	m := map[string][]splitpattern.Capture{}
	for _, s := range []string{"", "aé京", "a a", "京.京"} {
		p := patFunc("letter", func(r rune) bool { return r == 'a' || r == '.' || r == 'é' })
		cs := toCaptures(p.Segs(s))
		m[s] = append(make([]splitpattern.Capture, 0, len(cs)+3), cs...)
	}
	return &sharedCaptures{m}
}

func sharedComp(times int, behave int) comp {
	return comp{fmt.Sprintf("inverting %d times a pattern with shared captures, mode %d", times, behave), func() compObj {
		inner := newShared()
		want := fmt.Sprint(newShared().m)
		var x splitpattern.SplitPattern = inner
		for i := 0; i < times; i++ {
			x = splitpattern.Invert(x)
		}
		chk := func() string {
			if got := fmt.Sprint(inner.m); got != want {
				return fmt.Sprintf("captures of the inner pattern changed: %s, were %s", got, want)
			}
			return ""
		}
		return compObj{func(in string) held {
			if behave < 0 {
				cs, err := x.FindMatches(in)
				if err != nil {
					return heldErr(err)
				}
				return held{func() string { return fmt.Sprint(cs) }, func() {}}
			}
			ps, err := newReal(in).Split(x, modes[behave].b)
			if err != nil {
				return heldErr(err)
			}
			return held{func() string {
				var b strings.Builder
				for _, y := range ps {
					b.WriteString(renderNS(y) + "; ")
				}
				return b.String()
			}, func() {
				for _, y := range ps {
					scribbleNS(y)
				}
			}}
		}, chk}
	}, []string{"", "aé京", "a a", "京.京", "fail"}}
}

func convComp(text string) comp {
	st := charStarts(text)
	var ins []string
	for i := range st {
		for j := i; j < len(st); j++ {
			if (i+j)%2 == 0 || j == len(st)-1 {
				ins = append(ins, fmt.Sprintf("%d %d", st[i], st[j]))
			}
		}
	}
	if len(ins) > 7 {
		ins = ins[len(ins)-7:]
	}
	return comp{fmt.Sprintf("offset converter of %q", text), func() compObj {
		x := strutils.NewBytesToRuneOffsetConverter(text)
		return compObj{func(in string) held {
			f := strings.Fields(in)
			a, _ := strconv.Atoi(f[0])
			b, _ := strconv.Atoi(f[1])
			g := x.Convert(strutils.ByteOffsets{Start: a, End: b})
			return held{func() string { return fmt.Sprint(g) }, func() {}}
		}, nil}
	}, ins}
}

func seqFailComp() comp {
	return comp{"normalizer sequence with a failing member", func() compObj {
		log := []int{}
		f := &scriptNorm{log: &log, op: func(*NS) {}}
		lo, st := normLower().make(), normStrip(true, true).make()
		list := []normalizers.Normalizer{lo, f, st}
		x := sequencenormalizer.NewSequenceNormalizer(list)
		return compObj{func(in string) held {
			f.fail = nil
			if strings.Contains(in, "!") {
				f.fail = errScripted
			}
			n := newReal(in)
			err := x.Normalize(n)
			return held{func() string { return fmt.Sprintf("%s %v", renderNS(n), err) }, func() { scribbleNS(n) }}
		}, func() string {
			if list[0] != lo || list[1] != normalizers.Normalizer(f) || list[2] != st {
				return "the list of members handed in was modified"
			}
			return ""
		}}
	}, []string{" A ", "É!", "", "aB", " A ! "}}
}

func pipeComp(k int) comp {
	norms, pts := e2eNorms(), e2ePTs()
	nm, pt := norms[k%len(norms)], pts[k%len(pts)]
	return comp{fmt.Sprintf("pipeline %d: %s, %s", k, nm.name, pt.name), func() compObj {
		mods := e2eModels()
		mod := mods[k%len(mods)]
		n0, p0, m0 := nm.make(), pt.make(), mod.make()
		return compObj{func(in string) held {
			n := newReal(in)
			if err := n0.Normalize(n); err != nil {
				return heldErr(err)
			}
			p := pretokenizedstring.FromNormalizedString(n)
			if err := p0.PreTokenize(p); err != nil {
				return heldErr(err)
			}
			if err := p.Tokenize(func(n *NS) ([]models.Token, error) { return m0.Tokenize(n.Get()) }); err != nil {
				return heldErr(err)
			}
			e, err := p.IntoEncoding(-1, 0)
			if err != nil {
				return heldErr(err)
			}
			return held{func() string { return renderPTS(p) + fmt.Sprintf("%v", *e) }, func() {
				for i := range e.IDs {
					e.IDs[i], e.Tokens[i], e.Offsets[i] = -9, "scribble", strutils.ByteOffsets{Start: 4, End: 2}
				}
				for _, s := range p.Splits() {
					scribbleNS(s.NormalizedString)
					if s.Tokens != nil {
						for i := range *s.Tokens {
							(*s.Tokens)[i] = tok(-8, "scribble", 3, 1)
						}
					}
				}
			}}
		}, nil}
	}, []string{"aÉ京. aé", "", "京京 a", "aÉ京. a", ".aÉ"}}
}

// stringOpsComp runs string operations; the object is only package-level state.
func stringOpsComp(k int) comp {
	return comp{fmt.Sprintf("string operations %d", k), func() compObj {
		return compObj{func(in string) held {
			n := newReal(in)
			var rest []*NS
			switch k {
			case 0:
				n.Prepend("é")
				n.Append("xE")
				n.ToLower()
				n.Filter(func(r rune) bool { return r != 'a' })
				n.Trim()
			case 1:
				n.Map(func(r rune) rune {
					if r == 'a' {
						return '京'
					}
					return r
				})
				n.Append("\u0301 ")
				if x, ok := n.Slice(nsp.NewOriginalRange(0, len(in))); ok {
					rest = append(rest, x)
				}
			case 2:
				n.ToUpper()
				n.TrimRight()
				if x, ok := n.Slice(nsp.NewNormalizedRange(0, n.Len())); ok {
					x.ToLower()
					rest = append(rest, x)
				}
				n.Filter(unicode.IsLower)
			}
			rest = append(rest, n)
			return held{func() string {
				var b strings.Builder
				for _, x := range rest {
					b.WriteString(renderNS(x))
				}
				return b.String()
			}, func() {
				for _, x := range rest {
					scribbleNS(x)
				}
			}}
		}, nil}
	}, []string{" aÉ京 ", "", "aaa", "É", "京a.京"}}
}

// lookupComp only reads a vocabulary and a merge table.
func lookupComp() comp {
	return comp{"vocabulary and merge table lookups", func() compObj {
		v := vocabulary.NewVocabulary()
		for _, t := range bpeTerms {
			v.AddTerm(t)
		}
		t := bpeY2Table()
		mm := t.real()
		return compObj{func(in string) held {
			id, ok := v.GetID(in)
			s, ok2 := v.GetString(len(in))
			g, ok3 := mm.Get(len(in), 1)
			out := fmt.Sprint(id, ok, s, ok2, g, ok3, v.Size())
			return held{func() string { return out }, func() {}}
		}, vocabWatch(v, bpeTerms, mm, t)}
	}, []string{"ab", "", "京", "zz", "##a"}}
}

// y2Comps lists all components, grouped.
func y2Comps() (groups [][]comp) {
	var g []comp
	words := []string{"ab", "aba", "", "ba", "x京"}
	for _, cache := range []int{0, 1, 2, 3, 10000} {
		g = append(g, bpeComp(cache, "u", "", "", false, words...))
	}
	g = append(g,
		bpeComp(2, "u", "##", "$", true, "ab", "a", "xyab", "xy", ""),
		bpeComp(10000, "u", "", "", true, "xyab", "xxé", "éé", "ab", "xyab"),
		bpeComp(1, "none", "", "", false, "ab", "", "ba", "x"),
		bpeComp(10, "", "", "", false, "ab", "ba", "京a", "aab", "bba"),
		bpeComp(11, "", "", "", false, "a", "aa", "aaa", "aaaa", "b"),
		bpeComp(-1, "u", "", "", false, "ab", "ba", "京a"),
	)
	groups = append(groups, g)
	groups = append(groups, []comp{
		wpComp("[UNK]", "##", 4, "ab", "aab", "", "xab", "ababab"),
		wpComp("[UNK]", "", 100, "ab", "aab", "京a", "x", "b"),
		wpComp("gone", "##", 3, "ab", "x", "aaaa", "a京", ""),
		wpComp("a", "##", 100, "ab", "é", "aé", "éa", "a"),
	})
	g = nil
	txt := []string{"a京. É", "", " a", "京a京", "É a"}
	for _, pt := range append(e2ePTs(), ptWordCustom(`(?<=a).`, 0), ptByteLevelCustom(`a+|\s`, 0, true), ptMeta('_', true)) {
		g = append(g, ptComp(pt, txt...))
	}
	groups = append(groups, g)
	g = nil
	for _, nm := range append(e2eNorms(), normStrip(true, false), normStrip(false, true), normLower(), normBert(1), normBert(4)) {
		g = append(g, normComp(nm, " A京\u0301 ", "", "É.É", "\u3000a", " A京 "))
	}
	g = append(g, seqFailComp())
	groups = append(groups, g)
	g = nil
	ptx := []string{"aé京", "", "a a", "京.京", "aAa"}
	pats := []Pat{patRune('a'), patRune('京'), patFunc("white space", isWS), patFunc("letters", unicode.IsLetter), patString("a"), patString("京."), patString(""), patRegexp(`a+`), patRegexp(`x*`), patRegexp2(`\w+`, 0), patRegexp2(`a`, regexp2.IgnoreCase), patRegexp2(`.a`, regexp2.RightToLeft), patRegexp2(`$`, 0)}
	for _, p := range pats {
		g = append(g, patComp(p, ptx...), patComp(inverted(p, 1), ptx...))
	}
	groups = append(groups, g)
	g = nil
	for i, p := range pats {
		g = append(g, splitComp(p, modes[i%len(modes)], ptx...), splitComp(inverted(p, 1+i%2), modes[(i+2)%len(modes)], ptx...))
	}
	for i := 1; i <= 3; i++ {
		g = append(g, sharedComp(i, -1), sharedComp(i, i), sharedComp(i, i-1))
	}
	groups = append(groups, g)
	groups = append(groups, []comp{convComp("aé京"), convComp(""), convComp("京京a"), convComp("abc"), convComp("𝔾é")})
	g = nil
	for k := 0; k < 18; k++ {
		g = append(g, pipeComp(k))
	}
	groups = append(groups, g)
	groups = append(groups, []comp{stringOpsComp(0), stringOpsComp(1), stringOpsComp(2), lookupComp()})
	return groups
}

func safeCall(o compObj, in string) (h held) {
	if pm := try(func() { h = o.call(in) }); pm != "" {
		return held{func() string { return pm }, func() {}}
	}
	return h
}

type baseReq struct {
	Group, Comp int
	Inputs      []string
}

// baselineMain answers requests, each with a fresh object.
func baselineMain() int {
	var reqs []baseReq
	if err := json.NewDecoder(os.Stdin).Decode(&reqs); err != nil {
		fatalf("%v", err)
	}
	groups := y2Comps()
	groups = append(groups, y2Long())
	var out []string
	for _, q := range reqs {
		for _, in := range q.Inputs {
			out = append(out, safeCall(groups[q.Group][q.Comp].make(), in).render())
		}
	}
	b, _ := json.Marshal(out)
	os.Stdout.Write(b)
	return 0
}

func baseline(reqs []baseReq) []string {
	b, _ := json.Marshal(reqs)
	cmd := exec.Command(os.Args[0], "baseline", "-")
	cmd.Env = append(os.Environ(), "GORACE=atexit_sleep_ms=0")
	cmd.Stdin = bytes.NewReader(b)
	cmd.Stderr = os.Stderr
	o, err := cmd.Output()
	var out []string
	if err == nil {
		err = json.Unmarshal(o, &out)
	}
	if err != nil {
		fatalf("baseline process: %v", err)
	}
	return out
}

// y2Long are the components of the long histories.
func y2Long() []comp {
	var cs []comp
	for _, k := range []int{0, 1, 7, 64, 100, 256, 1000, bpemodel.DefaultCacheCapacity} {
		cs = append(cs, bpeComp(k, "u", "", "", false))
	}
	cs = append(cs, bpeComp(100, "u", "##", "$", true), wpComp("[UNK]", "##", 6), ptComp(ptBert()), normComp(normBert(15)), patComp(patRegexp2(`a+`, 0)), ptComp(ptByteLevel(true)))
	return cs
}

func longWords(n int) []string {
	a := []rune("abé京xB ")
	var out []string
	for k := 1; len(out) < n; k++ {
		x := k
		var rs []rune
		for x > 0 {
			rs = append(rs, a[x%len(a)])
			x /= len(a)
		}
		out = append(out, string(rs))
	}
	return out
}

func checkY02(r *Run) {
	groups := y2Comps()
	want := make([][]map[string]string, len(groups))
	type job struct {
		g, c int
		in   string
	}
	jobs := make(chan job, 64)
	var mu sync.Mutex
	var wg sync.WaitGroup
	for w := 0; w < nWorkers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				o := baseline([]baseReq{{j.g, j.c, []string{j.in}}})[0]
				mu.Lock()
				want[j.g][j.c][j.in] = o
				mu.Unlock()
			}
		}()
	}
	for g := range groups {
		mu.Lock()
		want[g] = make([]map[string]string, len(groups[g]))
		for k := range groups[g] {
			want[g][k] = map[string]string{}
		}
		mu.Unlock()
		for k := range groups[g] {
			for _, in := range groups[g][k].inputs {
				jobs <- job{g, k, in}
			}
		}
	}
	close(jobs)
	wg.Wait()

	type past struct {
		h    held
		was  string
		what string
	}
	judge := func(c *C, pasts []past, o compObj) {
		for _, p := range pasts {
			if got := p.h.render(); got != p.was {
				c.Fail("an earlier result changed: %s was %.300s, is now %.300s", p.what, p.was, got)
			}
		}
		if o.check != nil {
			if d := o.check(); d != "" {
				c.Fail("%s", d)
			}
		}
	}
	step := func(c *C, pasts []past, cp *comp, o compObj, in string, scribble bool, want string) []past {
		h := safeCall(o, in)
		got := h.render()
		c.Step()
		c.Logf("%s %q -> %.200s", cp.name, in, got)
		if got != want {
			c.Fail("%s on %q after %d other calls gives %.300s, a fresh object gives %.300s", cp.name, in, len(pasts), got, want)
		}
		judge(c, pasts, o)
		if scribble {
			h.scribble()
			judge(c, pasts, o)
			got = h.render()
		}
		return append(pasts, past{h, got, fmt.Sprintf("%s on %q", cp.name, in)})
	}
	for g := range groups {
		g := g
		depth := r.Pick(3, 5)
		if g == 0 || g == 1 || g == 6 {
			depth = r.Pick(4, 5)
		}
		r.Explore("histories of group "+strconv.Itoa(g)+": "+groups[g][0].name+"...", fmt.Sprintf("all histories of %d calls over all inputs x which results are overwritten", depth), func(c *C) {
			k := c.Choose(len(groups[g]))
			cp := &groups[g][k]
			o := cp.make()
			var pasts []past
			key := cp.name
			for d := 0; d < depth; d++ {
				in := cp.inputs[c.Choose(len(cp.inputs))]
				pasts = step(c, pasts, cp, o, in, c.Bool(), want[g][k][in])
				key += "|" + in
			}
			c.State(key)
		})
		r.Explore("two objects of group "+strconv.Itoa(g), "all pairs of components x all histories of 4 alternating or repeated calls", func(c *C) {
			n := len(groups[g])
			ks := [2]int{c.Choose(n), c.Choose(n)}
			if !r.Thorough && (ks[1]+n-ks[0])%n > 5 {
				c.Skip()
			}
			os := [2]compObj{groups[g][ks[0]].make(), groups[g][ks[1]].make()}
			var pasts []past
			ins := groups[g][ks[0]].inputs
			if len(ins) > r.Pick(3, 4) {
				ins = ins[:r.Pick(3, 4)]
			}
			order := [][]int{{0, 1, 0, 1}, {0, 0, 1, 1}, {0, 1, 1, 0}}[c.Choose(3)]
			for _, w := range order {
				in := ins[c.Choose(len(ins))]
				exp, ok := want[g][ks[w]][in]
				if !ok {
					c.Skip()
				}
				pasts = step(c, pasts, &groups[g][ks[w]], os[w], in, false, exp)
			}
		})
	}
	alphas := [][]rune{[]rune("ab"), []rune("ab"), []rune("a "), []rune("A "), []rune("a京"), []rune("a京"), nil, []rune("a "), []rune("a ")}
	for g := range groups {
		g := g
		if alphas[g] == nil {
			continue
		}
		var ks []int
		for k := range groups[g] {
			if n := groups[g][k].name; !strings.HasPrefix(n, "inverting") && !strings.HasPrefix(n, "vocabulary") && !strings.HasPrefix(n, "normalizer sequence with") {
				ks = append(ks, k)
			}
		}
		ins := texts(alphas[g], 4)
		res := make([][]string, len(groups[g]))
		var wg sync.WaitGroup
		for _, k := range ks {
			wg.Add(1)
			go func() {
				defer wg.Done()
				res[k] = baseline([]baseReq{{g, k, ins}})
			}()
		}
		wg.Wait()
		dense := func(name string, m, depth int) {
			r.Explore(name+strconv.Itoa(g), fmt.Sprintf("all histories of %d calls over %d texts over %q", depth, m, string(alphas[g])), func(c *C) {
				k := ks[c.Choose(len(ks))]
				cp := &groups[g][k]
				o := cp.make()
				var pasts []past
				key := cp.name
				for d := 0; d < depth; d++ {
					i := c.Choose(m)
					pasts = step(c, pasts, cp, o, ins[i], false, res[k][i])
					key += "|" + ins[i]
				}
				c.State(key)
			})
		}
		dense("dense histories of group ", len(ins), 2)
		dense("longer dense histories of group ", r.Pick(7, 15), r.Pick(4, 4))
	}
	long := y2Long()
	words := longWords(r.Pick(12000, 40000))
	lw := make([][]string, len(long))
	for i := range long {
		wg.Add(1)
		go func() {
			defer wg.Done()
			lw[i] = baseline([]baseReq{{len(groups), i, words}})
		}()
	}
	wg.Wait()
	r.Explore("long histories", fmt.Sprintf("n distinct inputs on one object, then all of them again forwards and backwards, n up to %d", len(words)), func(c *C) {
		i := c.Choose(len(long))
		ns := []int{3, 8, 9, 65, 66, 101, 102, 257, 1001, 2500, 10001, len(words)}
		n := ns[c.Choose(len(ns))]
		back := c.Bool()
		o := long[i].make()
		var first held
		for round := 0; round < 2; round++ {
			for k := 0; k < n; k++ {
				j := k
				if round == 1 && back {
					j = n - 1 - k
				}
				h := safeCall(o, words[j])
				if got := h.render(); got != lw[i][j] {
					c.Fail("%s: after %d calls (round %d) %q gives %.300s, a fresh object gives %.300s", long[i].name, k+round*n, round, words[j], got, lw[i][j])
				}
				if k == 0 && round == 0 {
					first = h
				} else if k%5 == 0 {
					h.scribble()
				}
			}
			if got := first.render(); got != lw[i][0] {
				c.Fail("%s: the first result changed to %.300s", long[i].name, got)
			}
		}
		if o.check != nil {
			if d := o.check(); d != "" {
				c.Fail("%s: %s", long[i].name, d)
			}
		}
		c.Steps(2 * n)
	})
}
