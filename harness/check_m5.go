package main

// M05, M06: merge tables and vocabularies read from files, vocabulary histories.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/nlpodyssey/gotokenizers/models/bpemodel"
	"github.com/nlpodyssey/gotokenizers/vocabulary"
)

func init() {
	register("M05", "every file of up to the bound of lines over a line alphabet (valid, version, malformed, out-of-vocabulary, CRLF, empty) x final newline x prefix lengths; every truncation point of a set of files; long files and lines; compared with a line-by-line reference", checkM05,
		"a line longer than 64 KB may be reported as an error", "a pair listed twice may have either rank")
	register("M06", "every history of additions up to the bound from the empty vocabulary and from every small loaded one; every file of up to the bound of JSON tokens; every truncation point; long histories; compared with a reference map", checkM06,
		"files in which one term occurs twice are outside the domain, as are ids written as floating-point literals with an integral value")
}

// ---------------------------------------------------------------- M05

// refMerges reads a merge table; errLine is the 1-based line of the first bad line.
// ranks lists all the ranks a pair occurs with.
type refMerge struct {
	id    int
	ranks []int
}

func refMergeFile(text string, ids map[string]int, prefixLen int) (t map[[2]int]*refMerge, errLine int, why string) {
	t = map[[2]int]*refMerge{}
	rank, line := 0, 0
	for text != "" {
		var l string
		if i := strings.IndexByte(text, '\n'); i >= 0 {
			l, text = text[:i], text[i+1:]
		} else {
			l, text = text, ""
		}
		line++
		l = strings.TrimSuffix(l, "\r")
		if strings.HasPrefix(l, "#version") {
			continue
		}
		f := strings.Split(l, " ")
		if len(f) != 2 {
			return nil, line, "not two terms"
		}
		a, ok1 := ids[f[0]]
		b, ok2 := ids[f[1]]
		if !ok1 || !ok2 || len(f[1]) < prefixLen {
			return nil, line, "unknown or too short term"
		}
		j, ok := ids[f[0]+f[1][prefixLen:]]
		if !ok {
			return nil, line, "unknown joined term"
		}
		k := [2]int{a, b}
		if t[k] == nil {
			t[k] = &refMerge{id: j}
		}
		t[k].ranks = append(t[k].ranks, rank)
		rank++
	}
	return t, 0, ""
}

func namesLine(msg, path string, line int) bool {
	msg = strings.ReplaceAll(strings.ReplaceAll(msg, path, ""), filepath.Dir(path), "")
	for _, f := range strings.FieldsFunc(msg, func(r rune) bool { return r < '0' || r > '9' }) {
		if n, err := strconv.Atoi(f); err == nil && n == line {
			return true
		}
	}
	return false
}

func (c *C) mergeFileCase(v *vocabulary.Vocabulary, ids map[string]int, text string, prefixLen int, longLine bool) {
	path := c.writeFile("merges.txt", text)
	var m *bpemodel.MergeMap
	var err error
	what := func() string {
		return fmt.Sprintf("terms %v prefix length %d file %s", sortedTerms(ids), prefixLen, quoteTrunc(text))
	}
	if pm := try(func() { m, err = bpemodel.MergeMapFromFile(path, v, prefixLen) }); pm != "" {
		c.Fail("%s: %s", what(), pm)
	}
	c.Step()
	want, line, why := refMergeFile(text, ids, prefixLen)
	if c.traceOn {
		c.Logf("%s -> error %v, expected line %d", what(), err, line)
	}
	if want == nil {
		if err == nil {
			c.Fail("%s: no error, but line %d is bad (%s)", what(), line, why)
		}
		if m != nil && len(*m) > 0 {
			c.Fail("%s: error %q together with a partial table of %d entries", what(), err, len(*m))
		}
		if !longLine && !namesLine(err.Error(), path, line) {
			c.Fail("%s: error %q does not name line %d (%s)", what(), err, line, why)
		}
		return
	}
	if err != nil {
		if longLine {
			return
		}
		c.Fail("%s: error %q on a valid file", what(), err)
	}
	if m == nil {
		c.Fail("%s: neither a table nor an error", what())
	}
	if len(*m) != len(want) {
		c.Fail("%s: table of %d pairs, expected %d", what(), len(*m), len(want))
	}
	for k, w := range want {
		g, ok := m.Get(k[0], k[1])
		if !ok || g.ID != w.id {
			c.Fail("%s: pair %v is %v (%v), expected id %d", what(), k, g, ok, w.id)
		}
		hit := false
		for _, x := range w.ranks {
			hit = hit || x == g.Rank
		}
		if !hit {
			c.Fail("%s: pair %v has rank %d, expected %v", what(), k, g.Rank, w.ranks)
		}
	}
	if len(ids) < 20 {
		for _, a := range ids {
			for _, b := range ids {
				if _, ok := m.Get(a, b); ok != (want[[2]int{a, b}] != nil) {
					c.Fail("%s: pair %d,%d present=%v", what(), a, b, ok)
				}
			}
		}
	}
}

func sortedTerms(ids map[string]int) []string {
	var out []string
	for t := range ids {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return ids[out[i]] < ids[out[j]] })
	if len(out) > 16 {
		out = append(out[:16:16], "...")
	}
	return out
}

func checkM05(r *Run) {
	terms := []string{"a", "b", "ab", "京", "a京", "#b", "##b", "a#b", "a##b", "abb", "#a", "#ab", "#version", "ba", "bb", "#version:ab", "é", "aé", "éa"}
	lines := []string{
		"a b", "b a", "a 京", "京 a", "ab b", "#a b", "a #b", "a ##b", "a é", "é a",
		"#version: 0.2", "#version", "#version a b", "#version: a b",
		"", "a", "a b b", "a  b", " a b", "a b ", "a\tb", "a\u00a0b", "#", "##version a", "# version", " #version",
		"z b", "a z", "b 京", "z z",
	}
	quick := []int{0, 1, 2, 5, 6, 7, 8, 10, 12, 14, 15, 16, 17, 23, 26, 27, 28}
	if r.Thorough {
		quick = nil
		for i := range lines {
			quick = append(quick, i)
		}
	}
	ids := idsOf(terms)
	r.Explore("files", fmt.Sprintf("all files of <=3 of %d lines x line ends x final line end x prefix lengths 0..3", len(quick)), func(c *C) {
		v := mkVocab(terms)
		if v == nil {
			c.Skip()
		}
		n := c.Choose(4)
		nl := []string{"\n", "\r\n"}[c.Choose(2)]
		var ls []string
		for i := 0; i < n; i++ {
			ls = append(ls, lines[quick[c.Choose(len(quick))]])
		}
		text := strings.Join(ls, nl)
		texts := []string{text}
		if n > 0 {
			texts = append(texts, text+nl)
		}
		for _, t := range texts {
			for p := 0; p <= 3; p++ {
				c.mergeFileCase(v, ids, t, p, false)
			}
		}
		c.State(text)
	})
	r.Explore("single lines", "every line of <=6 characters over {a, b, é, space, #, CR, tab} x prefix lengths", func(c *C) {
		v := mkVocab(terms)
		if v == nil {
			c.Skip()
		}
		text := c.Text([]rune("abé #\r\t"), r.Pick(5, 6))
		for _, t := range []string{text, text + "\n", "a b\n" + text + "\nb a\n"} {
			for p := 0; p <= 2; p++ {
				c.mergeFileCase(v, ids, t, p, false)
			}
		}
		c.State(text)
	})
	full := []string{
		"#version: 0.2\na b\nab b\nb a\n#a b\na 京\n",
		"a b\r\nb a\r\n#version\r\n#a b\r\na é",
		"a ##b\na 京\n",
		"é a\na é\n京 a\n\n",
		"#version: 0.2 - trained\n",
	}
	r.Explore("truncation", "every file of a set cut at every byte, every prefix length", func(c *C) {
		t := full[c.Choose(len(full))]
		v := mkVocab(terms)
		if v == nil {
			c.Skip()
		}
		c.mergeFileCase(v, ids, t[:c.Choose(len(t)+1)], c.Choose(4), false)
	})
	r.Explore("flipped bytes", "every file of a set with every byte replaced by each of 8 others", func(c *C) {
		t := []byte(full[c.Choose(len(full))])
		v := mkVocab(terms)
		if v == nil {
			c.Skip()
		}
		t[c.Choose(len(t))] = "\n\r #bz\x00\xff"[c.Choose(8)]
		c.mergeFileCase(v, ids, string(t), c.Choose(3), false)
	})
	r.Explore("unreadable files", "missing file, directory, missing directory", func(c *C) {
		v := mkVocab(terms)
		if v == nil {
			c.Skip()
		}
		p := c.tmpFile("none.txt")
		if k := c.Choose(4); k == 1 {
			p = filepath.Dir(p)
		} else if k == 2 {
			p = filepath.Join(p, "x")
		} else if k == 3 {
			p = ""
		}
		var m *bpemodel.MergeMap
		var err error
		if pm := try(func() { m, err = bpemodel.MergeMapFromFile(p, v, 0) }); pm != "" {
			c.Fail("file %q: %s", p, pm)
		}
		if err == nil || m != nil && len(*m) > 0 {
			c.Fail("file %q: table %v, no error", p, m)
		}
	})
	sz := append(fewSizes(r.Thorough), 3000, 10000, 20000, 40000)
	r.Explore("long files", "n merge lines over terms of 6 lengths, a version or bad line at the start, middle or end", func(c *C) {
		n := sz[c.Choose(len(sz))]
		w := []int{1, 3, 30, 200, 4090}[c.Choose(5)]
		if n*w > r.Pick(900000, 4000000) {
			c.Skip()
		}
		ids := map[string]int{}
		v := vocabulary.NewVocabulary()
		add := func(t string) {
			if _, ok := ids[t]; !ok {
				ids[t] = len(ids)
				v.AddTerm(t)
			}
		}
		x := strings.Repeat("x", w)
		add("é")
		var ls []string
		k := 0
		for i := 0; i < n; i++ {
			l := fmt.Sprintf("%s%d", x, i/7)
			if i%7 == 0 {
				k = i
			}
			rt := fmt.Sprintf("y%d", i-k)
			add(l)
			add(rt)
			add(l + rt)
			ls = append(ls, l+" "+rt)
		}
		for t, id := range ids {
			if g, ok := v.GetID(t); !ok || g != id {
				c.Skip()
			}
		}
		ins := []string{"", "#version: 1", "a", "é nope"}[c.Choose(4)]
		if at := c.Choose(3); ins != "" {
			p := []int{0, n / 2, n}[at]
			ls = append(ls[:p:p], append([]string{ins}, ls[p:]...)...)
		} else if at > 0 {
			c.Skip()
		}
		c.mergeFileCase(v, ids, strings.Join(ls, "\n")+"\n", 0, false)
	})
	r.Explore("long lines", "one line of a length next to a buffer size at the start, middle or end", func(c *C) {
		n := []int{4094, 4095, 4096, 4097, 8192, 32768, 65530, 65533, 65534, 65535, 65536, 65537, 70000, 131072, 200000}[c.Choose(15)]
		half := n / 2
		l, rt := strings.Repeat("x", half), strings.Repeat("y", n-half-1)
		terms := []string{"a", "b", "ab", "ba", l, rt, l + rt}
		v := mkVocab(terms)
		if v == nil {
			c.Skip()
		}
		ls := [][]string{{l + " " + rt}, {l + " " + rt, "a b"}, {"a b", l + " " + rt, "b a"}, {"a b", l + " " + rt}, {"a b", l + rt, "b a"}}[c.Choose(5)]
		c.mergeFileCase(v, idsOf(terms), strings.Join(ls, "\n")+[]string{"", "\n"}[c.Choose(2)], 0, n > 60000)
	})
	oddM05(r)
}

// ---------------------------------------------------------------- M06

type mVocab struct {
	ids map[string]int
	rev map[int]string
	// the terms an id may look up to, for the ids a file gives to several terms
	shared map[int][]string
}

// vocabDiff compares everything observable.
func vocabDiff(v *vocabulary.Vocabulary, m *mVocab, terms []string, probe []int) string {
	if v.Size() != len(m.ids) {
		return fmt.Sprintf("size %d, expected %d", v.Size(), len(m.ids))
	}
	for _, t := range terms {
		id, ok := v.GetID(t)
		want, wok := m.ids[t]
		if ok != wok || ok && id != want {
			return fmt.Sprintf("GetID(%q) = %d, %v; expected %d, %v", t, id, ok, want, wok)
		}
	}
	for _, id := range probe {
		t, ok := v.GetString(id)
		want, wok := m.rev[id]
		if ts := m.shared[id]; len(ts) > 0 && ok {
			found := false
			for _, x := range ts {
				found = found || x == t
			}
			if found {
				continue
			}
		}
		if ok != wok || ok && t != want {
			return fmt.Sprintf("GetString(%d) = %q, %v; expected %q, %v", id, t, ok, want, wok)
		}
	}
	return ""
}

// addTerm performs and checks one addition; the id of a new term is learnt
// from the implementation where the property leaves it open.
func (m *mVocab) addTerm(v *vocabulary.Vocabulary, t string) string {
	_, had := m.ids[t]
	size := len(m.ids)
	if pm := try(func() { v.AddTerm(t) }); pm != "" {
		return pm
	}
	if had {
		return ""
	}
	id, ok := v.GetID(t)
	if !ok {
		return "the added term is not found"
	}
	if x, used := m.rev[id]; used {
		return fmt.Sprintf("the new term %q shares id %d with %q", t, id, x)
	}
	if _, used := m.rev[size]; !used && id != size {
		return fmt.Sprintf("the new term %q has id %d, expected the size %d", t, id, size)
	}
	m.ids[t] = id
	m.rev[id] = t
	return ""
}

// refVocabFile parses a vocabulary file: ok, or bad, or outside of the domain.
func refVocabFile(text string) (ids map[string]int, bad, outside bool) {
	dec := json.NewDecoder(bytes.NewReader([]byte(text)))
	dec.UseNumber()
	t, err := dec.Token()
	if err != nil || t != json.Delim('{') {
		return nil, true, false
	}
	if !json.Valid([]byte(text)) {
		return nil, true, false
	}
	ids = map[string]int{}
	for dec.More() {
		k, err := dec.Token()
		if err != nil {
			return nil, true, false
		}
		v, err := dec.Token()
		if err != nil {
			return nil, true, false
		}
		n, ok := v.(json.Number)
		if !ok {
			return nil, true, false
		}
		id, err := strconv.ParseInt(n.String(), 10, 64)
		if err != nil {
			if f, e := n.Float64(); e == nil && f == float64(int64(f)) && f < 1e15 && f > -1e15 {
				outside = true
				continue
			}
			return nil, true, false
		}
		if _, dup := ids[k.(string)]; dup {
			outside = true
		}
		ids[k.(string)] = int(id)
	}
	return ids, false, outside
}

// sharedIDs lists the terms of every id that several terms have.
func sharedIDs(ids map[string]int) map[int][]string {
	by := map[int][]string{}
	for t, id := range ids {
		by[id] = append(by[id], t)
	}
	for id, ts := range by {
		if len(ts) < 2 {
			delete(by, id)
		}
	}
	return by
}

func (c *C) vocabFileCase(text string) {
	path := c.writeFile("vocab.json", text)
	var v *vocabulary.Vocabulary
	var err error
	if pm := try(func() { v, err = vocabulary.FromJSONFile(path) }); pm != "" {
		c.Fail("file %s: %s", quoteTrunc(text), pm)
	}
	c.Step()
	ids, bad, outside := refVocabFile(text)
	if c.traceOn {
		c.Logf("%s -> error %v (expected error: %v)", quoteTrunc(text), err, bad)
	}
	if bad {
		if err == nil {
			c.Fail("file %s: no error (size %d)", quoteTrunc(text), v.Size())
		}
		return
	}
	if outside {
		return
	}
	shared := sharedIDs(ids)
	if err != nil {
		if len(shared) > 0 {
			return // a file with ambiguous ids may be refused
		}
		c.Fail("file %s: error %v", quoteTrunc(text), err)
	}
	m := &mVocab{ids, revIDs(ids), shared}
	terms := []string{"a", "é", "x", "", "zz", "京"}
	probe := []int{-2, -1, 0, 1, 2, 3, 15}
	for t, id := range ids {
		terms = append(terms, t)
		probe = append(probe, id)
	}
	if d := vocabDiff(v, m, terms, probe); d != "" {
		c.Fail("file %s: %s", quoteTrunc(text), d)
	}
	// additions after loading
	for i, t := range []string{"new1", "a", "new2", ""} {
		if d := m.addTerm(v, t); d != "" {
			c.Fail("file %s, addition %d of %q: %s", quoteTrunc(text), i, t, d)
		}
	}
	if d := vocabDiff(v, m, append(terms, "new1", "new2"), append(probe, v.Size(), v.Size()+1)); d != "" {
		c.Fail("file %s then additions: %s", quoteTrunc(text), d)
	}
}

func checkM06(r *Run) {
	terms := []string{"a", "京", "", "A", "e\u0301", "é", "[UNK]", "\x00", "a ", "ﬁ"}
	probe := []int{-9, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 40, 41, 1 << 40, 1<<63 - 1, -1 << 63}
	r.Explore("additions to the empty vocabulary", fmt.Sprintf("all histories of %d additions over %d terms", r.Pick(5, 6), len(terms)), func(c *C) {
		v := vocabulary.NewVocabulary()
		m := &mVocab{map[string]int{}, map[int]string{}, nil}
		for i := 0; i < r.Pick(5, 6); i++ {
			t := terms[c.Choose(len(terms))]
			c.Logf("add %q", t)
			if d := m.addTerm(v, t); d != "" {
				c.Fail("addition %d: %s", i, d)
			}
			c.Step()
			if d := vocabDiff(v, m, terms, probe); d != "" {
				c.Fail("after addition %d of %q: %s", i, t, d)
			}
		}
		c.State(fmt.Sprint(m.ids))
	})
	idv := []int{0, 1, 2, 3, 4, 5, -1, 1 << 40, 1<<63 - 1, -1 << 63}
	r.Explore("additions to a loaded vocabulary", fmt.Sprintf("all vocabularies of <=3 of 3 terms with any of %d ids x all histories of <=%d additions over 5 terms", len(idv), r.Pick(3, 5)), func(c *C) {
		m := &mVocab{map[string]int{}, map[int]string{}, nil}
		for _, t := range []string{"a", "京", "é"} {
			k := c.Choose(len(idv) + 1)
			if k == len(idv) {
				continue
			}
			if _, used := m.rev[idv[k]]; used {
				c.Skip()
			}
			m.ids[t], m.rev[idv[k]] = idv[k], t
		}
		b, _ := json.Marshal(m.ids)
		v, err := vocabulary.FromJSONFile(c.writeFile("vocab.json", string(b)))
		if err != nil {
			c.Fail("loading %s: %v", b, err)
		}
		if d := vocabDiff(v, m, terms, probe); d != "" {
			c.Fail("loaded %s: %s", b, d)
		}
		c.Logf("loaded %s", b)
		add := []string{"a", "é", "new", "", "x"}
		for i := 0; i < r.Pick(3, 5); i++ {
			t := add[c.Choose(len(add))]
			c.Logf("add %q", t)
			if d := m.addTerm(v, t); d != "" {
				c.Fail("loaded %s, addition %d: %s", b, i, d)
			}
			c.Step()
			if d := vocabDiff(v, m, append(add, terms...), probe); d != "" {
				c.Fail("loaded %s, after addition %d of %q: %s", b, i, t, d)
			}
		}
		c.State(fmt.Sprint(m.ids))
	})
	r.Explore("shared ids", "all vocabulary files of 2..4 terms over 4 ids in which an id occurs twice, then additions", func(c *C) {
		ts := []string{`"a"`, `"京"`, `""`, `"x"`}
		idv := []int{0, 1, 3, -1}
		var es []string
		seen, dup := map[int]bool{}, false
		for i, n := 0, 2+c.Choose(3); i < n; i++ {
			id := idv[c.Choose(len(idv))]
			dup = dup || seen[id]
			seen[id] = true
			es = append(es, fmt.Sprintf("%s:%d", ts[i], id))
		}
		if !dup {
			c.Skip()
		}
		c.vocabFileCase("{" + strings.Join(es, ",") + "}")
	})
	toks := []string{"{", "}", `"a"`, `"é"`, ":", ",", "1", "-2", "null", "1.5", "[", "]", "true", " \n", `"\u0061b"`}
	tn := 11
	if r.Thorough {
		tn = len(toks)
	}
	r.Explore("token strings", fmt.Sprintf("all files of <=5 of %d JSON tokens", tn), func(c *C) {
		n := c.Choose(6)
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(toks[c.Choose(tn)])
		}
		c.vocabFileCase(b.String())
		c.State(b.String())
	})
	vals := []string{"0", "1", "-5", "null", `"0"`, "1.5", "1e30", "true", "{}", "[]", "[1]", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "01", "+1", "0x1", "", "NaN", "2,"}
	keys := []string{`"a"`, `"京"`, `"\u4eac\ud834\udd1e"`, `"\""`, `""`, "a", "1", "null", `"a`}
	r.Explore("typed values", "objects of 1 or 2 entries over every kind of key and value", func(c *C) {
		text := "{" + keys[c.Choose(len(keys))] + ":" + vals[c.Choose(len(vals))]
		if c.Bool() {
			text += `,"b" :` + vals[c.Choose(len(vals))]
		}
		text += []string{"}", "} \n", "}x", "}{}", "]", "}}", ",}", ""}[c.Choose(8)]
		c.vocabFileCase(text)
		c.State(text)
	})
	full := []string{
		"{\n  \"[UNK]\": 0,\n  \"京\": 1,\n  \"##\\u00e9\": 2,\n  \"a\\\"b\": 30\n}\n",
		`{"a":12,"b":-3,"":7}`,
		"null", "[]", "12", `"a"`, "{}", "[{\"a\":1}]",
	}
	r.Explore("truncation", "every file of a set cut at every byte, and with every byte replaced by each of 8 others", func(c *C) {
		t := full[c.Choose(len(full))]
		if k := c.Choose(9); k == 8 {
			c.vocabFileCase(t[:c.Choose(len(t)+1)])
		} else {
			b := []byte(t)
			b[c.Choose(len(b))] = "}{\":, 0n"[k]
			c.vocabFileCase(string(b))
		}
	})
	r.Explore("unreadable files", "missing file, directory, missing directory, empty name", func(c *C) {
		p := c.tmpFile("none.json")
		switch c.Choose(4) {
		case 1:
			p = filepath.Dir(p)
		case 2:
			p = filepath.Join(p, "x")
		case 3:
			p = ""
		}
		if _, e := os.Stat(p); e == nil && !strings.HasSuffix(p, "none.json") {
			c.Logf("directory")
		}
		var err error
		if pm := try(func() { _, err = vocabulary.FromJSONFile(p) }); pm != "" {
			c.Fail("file %q: %s", p, pm)
		}
		if err == nil {
			c.Fail("file %q: no error", p)
		}
	})
	sz := append(fewSizes(r.Thorough), 4096, 4097, 10000, 32768, 65535, 65536, 65537, 70000)
	r.Explore("long histories", "n terms loaded with ids of 5 shapes, then n additions with repeats", func(c *C) {
		n := sz[c.Choose(len(sz))]
		shape := c.Choose(6)
		if (shape == 2 || shape == 3) && n > 5000 {
			c.Skip() // finding a free id takes as long as there are used ones
		}
		m := &mVocab{map[string]int{}, map[int]string{}, nil}
		v := vocabulary.NewVocabulary()
		if shape > 0 {
			for i := 0; i < n; i++ {
				id := []int{i, 2 * i, n + i, n - i, i + 1}[shape-1]
				t := fmt.Sprint("t", i)
				m.ids[t], m.rev[id] = id, t
			}
			b, _ := json.Marshal(m.ids)
			var err error
			if v, err = vocabulary.FromJSONFile(c.writeFile("vocab.json", string(b))); err != nil {
				c.Fail("loading %d terms: %v", n, err)
			}
		}
		var all []string
		for i := 0; i < n; i++ {
			all = append(all, fmt.Sprint("t", i), fmt.Sprint("n", i))
			for _, t := range []string{fmt.Sprint("n", i), fmt.Sprint("t", i/2), fmt.Sprint("n", i*7%n)} {
				if d := m.addTerm(v, t); d != "" {
					c.Fail("shape %d of %d terms, addition of %q: %s", shape, n, t, d)
				}
			}
		}
		var probe []int
		for i := -2; i <= 4*n+3; i++ {
			probe = append(probe, i)
		}
		c.Step()
		if d := vocabDiff(v, m, all, probe); d != "" {
			c.Fail("shape %d of %d terms: %s", shape, n, d)
		}
	})
	oddM06(r)
}
