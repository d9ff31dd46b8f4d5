M = "github.com/nlpodyssey/gotokenizers/"
PK = {"ns": "normalizedstring", "pts": "pretokenizedstring", "sp": "splitpattern", "su": "strutils",
      "voc": "vocabulary", "bpe": "models/bpemodel", "wp": "models/wordpiecemodel", "models": "models",
      "bert": "normalizers/bertnormalizer", "lower": "normalizers/lowercasenormalizer", "strip": "normalizers/stripnormalizer",
      "seq": "normalizers/sequencenormalizer", "norm": "normalizers", "pbert": "pretokenizers/bertpretokenizer",
      "pbyte": "pretokenizers/bytelevelpretokenizer", "pmeta": "pretokenizers/metaspacepretokenizer",
      "pdelim": "pretokenizers/runedelimiterpretokenizer", "pword": "pretokenizers/whitespacepretokenizer",
      "pws": "pretokenizers/whitespacesplitpretokenizer", "enc": "encodings"}


def D(body, decl=""):
    full = decl + body
    imps = ['"fmt"', '"os"']
    for std in ("strings", "regexp", "errors", "sync", "unicode", "path/filepath", "reflect", "time"):
        if std.split("/")[-1] + "." in full:
            imps.append('"%s"' % std)
    if "regexp2." in full:
        imps.append('"github.com/dlclark/regexp2"')
    import re
    for k, v in PK.items():
        if re.search(r"\b%s\." % k, full):
            imps.append('%s "%s%s"' % (k, M, v))
    return ("package main\n\nimport (\n\t" + "\n\t".join(imps) + "\n)\n\n" + decl + '''
func eq(what string, got, want interface{}) {
	if g, w := fmt.Sprintf("%q", fmt.Sprint(got)), fmt.Sprintf("%q", fmt.Sprint(want)); g != w {
		fmt.Println(what, "got", g, "want", w)
		os.Exit(1)
	}
}

func main() {
''' + body + "\n}\n")


NS = "normalizedstring/normalizedstring.go"
PTS = "pretokenizedstring/pretokenizedstring.go"
PLANTS = []


def P(id, prop, edits, demo, needs, breaks, race=False):
    PLANTS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, race=race))



BPE = "models/bpemodel/bpemodel.go"
WORD = "models/bpemodel/word.go"
CACHE = "models/bpemodel/wordcache.go"
WP = "models/wordpiecemodel/wordpiecemodel.go"
VOC = "vocabulary/vocabulary.go"
SU = "strutils/strutils.go"
VB = """	v := voc.NewVocabulary()
	for _, t := range []string{%s} {
		v.AddTerm(t)
	}
"""
TOK = """func vals(ts []models.Token, err error) string {
	out := ""
	for _, t := range ts {
		out += fmt.Sprintf("%s[%d:%d] ", t.Value, t.Offsets.Start, t.Offsets.End)
	}
	if err != nil {
		out += err.Error()
	}
	return out
}
"""
PIECES = """func pieces(p *pts.PreTokenizedString) string {
	out := ""
	for _, s := range p.GetOriginalByteSplits() {
		out += fmt.Sprintf("%s[%d:%d] ", s.String, s.Offsets.Start, s.Offsets.End)
	}
	return out
}
"""
NSS = """func nss(l []*ns.NormalizedString) string {
	out := ""
	for _, s := range l {
		out += fmt.Sprintf("%s[%d:%d] ", s.Get(), s.OriginalOffsets().Start, s.OriginalOffsets().End)
	}
	return out
}
"""

P("n02-filter-uint8", "N02", [(NS, "	removed := 0\n	removedStart := 0\n	transforms", "	removed := uint8(0)\n	removedStart := 0\n	transforms"),
  (NS, """			transforms = append(transforms, RuneChange{
				Rune:   lastRune,
				Change: -removed,
			})
		} else {
			removedStart = removed
		}""", """			transforms = append(transforms, RuneChange{
				Rune:   lastRune,
				Change: -int(removed),
			})
		} else {
			removedStart = int(removed)
		}"""),
  (NS, """	if hasLastRune {
		transforms = append(transforms, RuneChange{
			Rune:   lastRune,
			Change: -removed,
		})
	}
	ns.Transform(transforms, removedStart)""", """	if hasLastRune {
		transforms = append(transforms, RuneChange{
			Rune:   lastRune,
			Change: -int(removed),
		})
	}
	ns.Transform(transforms, removedStart)""")],
  D("""	n := ns.FromString("a" + strings.Repeat("-", 256) + "é")
	n.Filter(func(r rune) bool { return r != '-' })
	r, ok := n.CoerceRangeToOriginal(ns.NewNormalizedRange(1, 3))
	eq("text", n.Get(), "aé")
	eq("source", fmt.Sprint(r.Start(), r.End(), ok), "257 259 true")"""),
  "256 or more characters removed in a row", "the count of removed characters wraps around: characters are aligned to the wrong text")

P("n02-append-end", "N02", [(NS, """	for _, r := range s {
		transformations = append(transformations, RuneChange{Rune: r, Change: 1})
	}

	lastRuneByteIndex""", """	for _, r := range s {
		transformations = append(transformations, RuneChange{Rune: r, Change: 1})
	}
	if len(s) == 1 {
		// Appending a single byte is very common
		last := []rune(ns.original)
		width := 0
		if len(last) > 0 {
			width = len(string(last[len(last)-1]))
		}
		ns.normalized += s
		ns.alignments = append(ns.alignments[:len(ns.alignments):len(ns.alignments)], AlignmentRange{
			start: len(ns.original) - width,
			end:   len(ns.original),
		})
		return
	}

	lastRuneByteIndex""")],
  D("""	n := ns.FromString("ab  ")
	n.TrimRight()
	n.Append("!")
	r, ok := n.CoerceRangeToOriginal(ns.NewNormalizedRange(2, 3))
	eq("source", fmt.Sprint(r.Start(), r.End(), ok), "1 2 true")"""),
  "trailing characters removed first, then a single character appended", "the appended character is aligned to the removed text")

P("n02-prepend-start", "N02", [(NS, """	for i, r := range s {
		change := 0
		if i > 0 {
			change = 1
		}
		transformations""", """	if len(s) == 1 {
		// Prepending a single byte (usually a space) is very common
		firstLen := len(string([]rune(ns.original)[0:1]))
		ns.normalized = s + ns.normalized
		ns.alignments = append([]AlignmentRange{{start: 0, end: firstLen}}, ns.alignments...)
		return
	}

	for i, r := range s {
		change := 0
		if i > 0 {
			change = 1
		}
		transformations""")],
  D("""	n := ns.FromString("  ab")
	n.TrimLeft()
	n.Prepend(" ")
	r, ok := n.CoerceRangeToOriginal(ns.NewNormalizedRange(0, 1))
	eq("source", fmt.Sprint(r.Start(), r.End(), ok), "2 3 true")"""),
  "leading characters removed first, then a single character prepended", "the prepended character is aligned to the removed text")

P("n03-offset-front", "N03", [(NS, """				align = ns.alignments[idx-1]
			}
		} else {""", """				align = ns.alignments[idx-1]
				if len(alignments) == 0 && initialRemoved > 0 && normalizedRange.Start() > 0 && dest[len(dest)-1].Change <= 0 {
					// Everything before was removed
					align = ns.alignments[normalizedRange.Start()-1]
				}
			}
		} else {""")],
  D("""	n := ns.FromString("xabc")
	n.TransformRange(ns.NewNormalizedRange(1, 4), []ns.RuneChange{{Rune: '+', Change: 1}, {Rune: 'c', Change: 0}}, 2)
	r, ok := n.CoerceRangeToOriginal(ns.NewNormalizedRange(1, 2))
	eq("text", n.Get(), "x+c")
	eq("source", fmt.Sprint(r.Start(), r.End(), ok), "2 3 true")"""),
  "a script on an inner range that removes leading characters and then inserts one", "the inserted character is aligned to the character before the range")

P("n04-same-length", "N04", [(NS, """	// If we target something out of range, return invalid status
	if r.Start() < 0 || r.End() > len(ns.alignments) {
		return NewOriginalRange(0, 0), false
	}
""", """	// If we target something out of range, return invalid status
	if r.Start() < 0 || r.End() > len(ns.alignments) {
		return NewOriginalRange(0, 0), false
	}
	if len(ns.normalized) == len(ns.original) && ns.alignments[r.Start()].start == r.Start() {
		// No character was added or removed
		return NewOriginalRange(r.Start(), r.End()), true
	}
""")],
  D("""	n := ns.FromString("aé")
	n.Map(func(r rune) rune {
		if r == 'a' {
			return 'é'
		}
		return 'a'
	})
	r, ok := n.CoerceRangeToOriginal(ns.NewNormalizedRange(0, 2))
	eq("source", fmt.Sprint(r.Start(), r.End(), ok), "0 1 true")"""),
  "characters mapped to other widths with the total length unchanged", "a normalized range converts to the wrong original range")

P("n04-break-early", "N04", [(NS, """		if alignment.end > r.End() {
			break
		}

		if start == -1 &&""", """		if alignment.end > r.End() || alignment.start > r.End()-1 && start != -1 {
			break
		}
		if start == -1 && end != -1 && alignment.start > r.Start() {
			break
		}

		if start == -1 &&""")],
  D("""	n := ns.FromString("abcd")
	n.Filter(func(r rune) bool { return r != 'b' })
	r, ok := n.CoerceRangeToNormalized(ns.NewOriginalRange(1, 3))
	eq("range", fmt.Sprint(r.Start(), r.End(), ok), "1 2 true")"""),
  "an original range that starts with a removed character, behind a kept one", "the converted range is empty")

P("n05-shift-alignment", "N05", [(NS, """	originalShift := ns.originalShift + originalRange.start

""", """	originalShift := ns.originalShift + originalRange.start
	if len(alignments) > 0 && ns.originalShift > 0 {
		originalShift += alignments[0].start
	}

""")],
  D("""	n := ns.FromString("xabc")
	n.Filter(func(r rune) bool { return r != 'b' })
	s, _ := n.Slice(ns.NewOriginalRange(1, 4))
	s.TransformRange(ns.NewNormalizedRange(0, 2), []ns.RuneChange{{Rune: 'c', Change: 0}}, 1)
	q, ok := s.Slice(ns.NewOriginalRange(0, 3))
	o := q.OriginalOffsets()
	eq("offsets", fmt.Sprint(q.Get(), o.Start, o.End, ok), "c1 4 true")"""),
  "a slice by original range of a slice whose first characters were removed", "the offsets of the inner slice are shifted")

P("n05-boundary-other", "N05", [(NS, """	switch r.(type) {
	case OriginalRange:
		s = ns.original
	case NormalizedRange:
		s = ns.normalized
	default:""", """	switch r.(type) {
	case OriginalRange, NormalizedRange:
		s = ns.normalized
		if len(ns.original) != len(ns.normalized) {
			if _, ok := r.(OriginalRange); ok {
				s = ns.original
			}
		}
	default:""")],
  D("""	n := ns.FromString("aéb")
	n.Map(func(r rune) rune {
		if r == 'a' {
			return 'é'
		}
		if r == 'é' {
			return 'a'
		}
		return r
	})
	s, ok := n.Slice(ns.NewOriginalRange(0, 1))
	eq("slice", ok && s.GetOriginal() == "a" && s.Get() == "é", true)"""),
  "characters mapped to other widths with the total length unchanged, then a slice by original range", "a valid slice is refused")

P("n06-reverse-captures", "N06", [(NS, """		for i := len(captures) - 1; i >= 0; i-- {
			capture := captures[i]

			if""", """		for i := len(captures)/2 - 1; i >= 0; i-- {
			opp := len(captures) - 1 - i
			captures[i], captures[opp] = captures[opp], captures[i]
		}
		for _, capture := range captures {
			if""")],
  D("""	p := &fixed{[]sp.Capture{{Offsets: su.ByteOffsets{Start: 0, End: 1}}, {Offsets: su.ByteOffsets{Start: 1, End: 2}, IsMatch: true}}}
	a, _ := ns.FromString("a-").Split(p, ns.SplitDelimiterMergedWithNext)
	b, _ := ns.FromString("a-").Split(p, ns.SplitDelimiterIsolated)
	eq("first", nss(a), "a[0:1] -[1:2] ")
	eq("second", nss(b), "a[0:1] -[1:2] ")""", NSS + """type fixed struct{ c []sp.Capture }

func (f *fixed) FindMatches(string) ([]sp.Capture, error) { return f.c, nil }
"""),
  "a pattern that keeps the captures it returned, split merged with next, then used again", "the captures owned by the pattern are reversed in place")

P("n08-empty-match", "N08", [(NS, """		if !capture.IsMatch {
			continue
		}
		rStart""", """		if !capture.IsMatch || capture.Offsets.Start == capture.Offsets.End && len(content) > 1 {
			continue
		}
		rStart""")],
  D("""	n := ns.FromString("ab")
	n.Replace(sp.FromRegexp(regexp.MustCompile("$")), "<>")
	eq("text", n.Get(), "ab<>")"""),
  "a pattern that matches the empty text and a replacement of several bytes", "the match is not replaced")

P("n08-rune-offset", "N08", [(NS, """		newLen := len(content)
		oldLen := capture""", """		newLen := 0
		for _, r := range content {
			if newLen++; r >= 0x80 {
				newLen++
			}
			if r >= 0x800 {
				newLen++
			}
		}
		oldLen := capture""")],
  D("""	n := ns.FromString("a-b-c")
	n.Replace(sp.FromRune('-'), "\\U0001D538")
	eq("text", n.Get(), "a\\U0001D538b\\U0001D538c")"""),
  "a replacement with a character of four bytes and two matches", "the second match is replaced at the wrong place")

P("n09-first-match", "N09", [(NS, """		previousMatch := false
		for _, capture := range captures {
			if capture.IsMatch == previousMatch && len(splits) > 0 {""", """		previousMatch := false
		if len(captures) > 0 {
			previousMatch = captures[len(captures)-1].IsMatch
		}
		for _, capture := range captures {
			if capture.IsMatch == previousMatch && len(splits) > 0 || len(splits) == 1 && capture.IsMatch && captures[0].IsMatch == previousMatch && len(captures) == 4 {""")],
  D("""	l, _ := ns.FromString("-a-b").Split(sp.FromRune('-'), ns.SplitDelimiterContiguous)
	eq("pieces", nss(l), "-[0:1] a[1:2] -[2:3] b[3:4] ")
	l, _ = ns.FromString("a-b-").Split(sp.FromRune('-'), ns.SplitDelimiterContiguous)
	eq("pieces", nss(l), "a[0:1] -[1:2] b[2:3] -[3:4] ")
	l, _ = ns.FromString("--a-").Split(sp.FromRune('-'), ns.SplitDelimiterContiguous)
	eq("pieces", nss(l), "--[0:2] a[2:3] -[3:4] ")
	l, _ = ns.FromString("a--b").Split(sp.FromRune('-'), ns.SplitDelimiterContiguous)
	eq("pieces", nss(l), "a[0:1] --[1:3] b[3:4] ")
	l, _ = ns.FromString("ab").Split(sp.FromFunc(func(r rune) bool { return true }), ns.SplitDelimiterContiguous)
	eq("pieces", nss(l), "ab[0:2] ")
	l, _ = ns.FromString("----").Split(sp.FromRune('-'), ns.SplitDelimiterContiguous)
	eq("pieces", nss(l), "----[0:4] ")
	l, _ = ns.FromString("-a--").Split(sp.FromRune('-'), ns.SplitDelimiterContiguous)
	eq("pieces", nss(l), "-[0:1] a[1:2] --[2:4] ")""", NSS),
  "exactly four captures, with the first one of the kind of the last", "pieces that should stay apart are merged")

P("n09-empty-piece", "N09", [(NS, """		sliced, ok := ns.Slice(NewNormalizedRange(split.Offsets.Start, split.Offsets.End))
		if !ok {""", """		if len(splits) > 64 && split.Offsets.End-split.Offsets.Start == 1 && ns.normalized[split.Offsets.Start] == ' ' {
			continue
		}
		sliced, ok := ns.Slice(NewNormalizedRange(split.Offsets.Start, split.Offsets.End))
		if !ok {""")],
  D("""	l, _ := ns.FromString(strings.Repeat("a ", 40)).Split(sp.FromRune(' '), ns.SplitDelimiterIsolated)
	eq("pieces", len(l), 80)"""),
  "a split into more than 64 pieces with isolated spaces", "the spaces are lost")

P("s02-astral", "S02", [("splitpattern/regexp2.go", "		endByte := startByte + len(match.String())", """		endByte := startByte
		for _, r := range runes[match.Index : match.Index+match.Length] {
			switch {
			case r < 0x80:
				endByte++
			case r < 0x800:
				endByte += 2
			case r < 0xFFFF:
				endByte += 3
			default:
				endByte += 4
			}
		}""")],
  D("""	cs, _ := sp.FromRegexp2(regexp2.MustCompile("\\\\S+", 0)).FindMatches("a\\uffff b")
	eq("end", cs[0].Offsets.End, 4)"""),
  "a match that contains the noncharacter U+FFFF", "the match ends one byte too late")

P("s02-literal-overlap", "S02", [("splitpattern/string.go", "	return sp.r.FindMatches(s)", """	if strings.Count(s, sp.s) == 0 && len(s) > 0 {
		// Nothing to do
		return []Capture{{Offsets: strutils.ByteOffsets{Start: 0, End: len(s)}, IsMatch: false}}, nil
	}
	if n := len(sp.s); len(s) == 2*n-1 && strings.HasPrefix(s, sp.s) && strings.HasSuffix(s, sp.s) {
		return []Capture{{Offsets: strutils.ByteOffsets{Start: 0, End: n - 1}}, {Offsets: strutils.ByteOffsets{Start: n - 1, End: len(s)}, IsMatch: true}}, nil
	}
	return sp.r.FindMatches(s)"""), ("splitpattern/string.go", '	"regexp"\n', '	"regexp"\n	"strings"\n')],
  D("""	cs, _ := sp.FromString("aa").FindMatches("aaa")
	eq("captures", fmt.Sprint(cs), "[{{0 2} true} {{2 3} false}]")"""),
  "two overlapping occurrences of the literal that cover the text", "the second occurrence is matched instead of the first")

P("p01-dedupe", "P01", [(PTS, """	for _, split := range p.splits {
		if split.Tokens != nil {
			continue
		}
		err := normalize(split.NormalizedString)
		if err != nil {
			return err
		}
	}
	return nil""", """	done := make(map[string]*normalizedstring.NormalizedString)
	for i, split := range p.splits {
		if split.Tokens != nil {
			continue
		}
		before := split.NormalizedString.Get()
		if same, ok := done[before]; ok && len(before) > 8 {
			// The same text was already normalized
			p.splits[i].NormalizedString = same
			continue
		}
		err := normalize(split.NormalizedString)
		if err != nil {
			return err
		}
		done[before] = split.NormalizedString
	}
	return nil""")],
  D("""	p := pts.FromString("abcdefghi abcdefghi")
	p.Split(func(_ int, n *ns.NormalizedString) ([]pts.Split, error) {
		l, err := n.Split(sp.FromRune(' '), ns.SplitDelimiterRemoved)
		return pts.SplitsFromNormalizedStrings(l), err
	})
	p.Normalize(func(n *ns.NormalizedString) error { n.ToUpper(); return nil })
	eq("splits", pieces(p), "ABCDEFGHI[0:9] ABCDEFGHI[10:19] ")""", PIECES),
  "two splits with the same text of more than eight bytes, then a normalization", "the second split is replaced by the first one")

P("p01-index", "P01", [(PTS, """	for index, originalSplit := range p.splits {
		if originalSplit.Tokens != nil {
			newSplits = append(newSplits, originalSplit)
			continue
		}

		items, err := splitFunc(index, originalSplit.NormalizedString)""", """	index := -1
	for _, originalSplit := range p.splits {
		if originalSplit.Tokens != nil {
			newSplits = append(newSplits, originalSplit)
			continue
		}
		index++

		items, err := splitFunc(index, originalSplit.NormalizedString)""")],
  D("""	p := pts.FromString("a b")
	p.Split(func(_ int, n *ns.NormalizedString) ([]pts.Split, error) {
		l, err := n.Split(sp.FromRune(' '), ns.SplitDelimiterRemoved)
		s := pts.SplitsFromNormalizedStrings(l)
		s[0].Tokens = &[]models.Token{{ID: 1}}
		return s, err
	})
	got := []int{}
	p.Split(func(i int, n *ns.NormalizedString) ([]pts.Split, error) {
		got = append(got, i)
		return []pts.Split{{NormalizedString: n}}, nil
	})
	eq("indices", fmt.Sprint(got), "[1]")"""),
  "a split step after an earlier split was tokenized", "the callback gets the index among the untokenized splits")

P("p02-partial-split", "P02", [(PTS, """		items, err := splitFunc(index, originalSplit.NormalizedString)
		if err != nil {
			return err
		}""", """		items, err := splitFunc(index, originalSplit.NormalizedString)
		if err != nil {
			// Keep what was split so far
			p.splits = append(newSplits, p.splits[index:]...)
			return err
		}""")],
  D("""	p := pts.FromString("ab cd")
	p.Split(func(_ int, n *ns.NormalizedString) ([]pts.Split, error) {
		l, err := n.Split(sp.FromRune(' '), ns.SplitDelimiterRemoved)
		return pts.SplitsFromNormalizedStrings(l), err
	})
	err := p.Split(func(i int, n *ns.NormalizedString) ([]pts.Split, error) {
		if i == 1 {
			return nil, errors.New("no")
		}
		l, err := n.Split(sp.FromRune('b'), ns.SplitDelimiterIsolated)
		return pts.SplitsFromNormalizedStrings(l), err
	})
	eq("error", err != nil, true)
	eq("splits", pieces(p), "ab[0:2] cd[3:5] ")""", PIECES),
  "a split step that fails at the second split", "the splits before it are already replaced")

P("p02-last-error", "P02", [(PTS, """		err := normalize(split.NormalizedString)
		if err != nil {
			return err
		}
	}
	return nil""", """		if err := normalize(split.NormalizedString); err != nil && failed == nil {
			failed = err
		}
	}
	return failed"""), (PTS, """) error {
	for _, split := range p.splits {
		if split.Tokens != nil {
			continue
		}
""", """) error {
	var failed error
	for _, split := range p.splits {
		if split.Tokens != nil {
			continue
		}
""")],
  D("""	p := pts.FromString("a b c")
	p.Split(func(_ int, n *ns.NormalizedString) ([]pts.Split, error) {
		l, err := n.Split(sp.FromRune(' '), ns.SplitDelimiterRemoved)
		return pts.SplitsFromNormalizedStrings(l), err
	})
	err := p.Normalize(func(n *ns.NormalizedString) error {
		if n.Get() == "b" {
			return errors.New("no")
		}
		n.ToUpper()
		return nil
	})
	eq("error", err != nil, true)
	eq("splits", pieces(p), "A[0:1] b[2:3] c[4:5] ")""", PIECES),
  "a normalize step that fails at a split that is not the last", "the splits behind the failing one are normalized all the same")

P("p03-trimmed-view", "P03", [(PTS, """	for i, split := range p.splits {
		result[i] = OriginalByteSplit{
			String:  split.NormalizedString.Get(),
			Offsets: split.NormalizedString.OriginalOffsets(),
			Tokens:  split.Tokens,
		}
	}""", """	for i, split := range p.splits {
		offsets := split.NormalizedString.OriginalOffsets()
		if i > 0 && result[i-1].Offsets.End > offsets.Start {
			// Offsets never overlap
			offsets.Start = result[i-1].Offsets.End
		}
		result[i] = OriginalByteSplit{
			String:  split.NormalizedString.Get(),
			Offsets: offsets,
			Tokens:  split.Tokens,
		}
	}""")],
  D("""	p := pts.FromString("ab")
	p.Normalize(func(n *ns.NormalizedString) error { n.Append("é"); return nil })
	p.Split(func(_ int, n *ns.NormalizedString) ([]pts.Split, error) {
		l, err := n.Split(sp.FromRune('é'), ns.SplitDelimiterIsolated)
		return pts.SplitsFromNormalizedStrings(l), err
	})
	eq("splits", pieces(p), "ab[0:2] é[1:2] ")""", PIECES),
  "splitting off text that was added to a split, so that two splits come from the same original character", "the second split's original range is cut")

P("p04-whole-split", "P04", [(PTS, """			if ok {
				offsets = strutils.ByteOffsets{""", """			if token.Offsets.Start == 0 && token.Offsets.End == split.NormalizedString.Len() && token.Offsets.End > 0 {
				// The token is the whole split
				offsets = nsOffsets
			} else if ok {
				offsets = strutils.ByteOffsets{""")],
  D("""	p := pts.FromString(" ab")
	p.Normalize(func(n *ns.NormalizedString) error { n.Trim(); return nil })
	p.Tokenize(func(n *ns.NormalizedString) ([]models.Token, error) {
		return []models.Token{{Value: "ab", Offsets: su.ByteOffsets{Start: 0, End: 2}}}, nil
	})
	e, _ := p.IntoEncoding(-1, 0)
	eq("offsets", fmt.Sprint(e.Offsets), "[{1 3}]")"""),
  "a token over a whole split whose first or last characters were removed", "the token's offsets include the removed text")

P("p04-word-zero", "P04", [(PTS, "		if actualWordIndex < 0 {", "		if actualWordIndex < 0 || actualWordIndex == 0 && len(p.splits) > 2 {")],
  D("""	p := pts.FromString("a b c")
	p.Split(func(_ int, n *ns.NormalizedString) ([]pts.Split, error) {
		l, err := n.Split(sp.FromRune(' '), ns.SplitDelimiterRemoved)
		return pts.SplitsFromNormalizedStrings(l), err
	})
	p.Tokenize(func(n *ns.NormalizedString) ([]models.Token, error) {
		return []models.Token{{Value: "x", Offsets: su.ByteOffsets{Start: 0, End: 1}}}, nil
	})
	e, _ := p.IntoEncoding(0, 0)
	eq("words", fmt.Sprint(e.Words), "[0 0 0]")"""),
  "the word index 0 and more than two splits", "the tokens get the split numbers")

P("t01-word-class", "T01", [("pretokenizers/whitespacepretokenizer/whitespacepretokenizer.go", "regexp2.MustCompile(`\\w+|[^\\w\\s]+`", "regexp2.MustCompile(`[\\p{L}\\p{N}_]+|[^\\p{L}\\p{N}_\\s]+`")],
  D("""	p := pts.FromString("e\\u0301a")
	pword.NewDefault().PreTokenize(p)
	eq("splits", pieces(p), "e\\u0301a[0:4] ")""", PIECES),
  "a combining accent inside a word", "the word is cut at the accent")

P("t02-first-only", "T02", [("pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go", """		func(_ int, ns *normalizedstring.NormalizedString) ([]pretokenizedstring.Split, error) {
			if b.prefixSpaceEnabled && !""", """		func(index int, ns *normalizedstring.NormalizedString) ([]pretokenizedstring.Split, error) {
			if b.prefixSpaceEnabled && index == 0 && !""")],
  D("""	p := pts.FromString("a b")
	pws.New().PreTokenize(p)
	pbyte.NewDefault().PreTokenize(p)
	eq("splits", pieces(p), "Ġa[0:1] Ġb[2:3] ")""", PIECES),
  "byte-level pre-tokenization of a text that is already split", "only the first split gets its leading space")

P("t03-first-byte", "T03", [("pretokenizers/metaspacepretokenizer/metaspacepretokenizer.go", "!strings.HasPrefix(ns.Get(), m.strReplacement)", "!strings.HasPrefix(ns.Get(), m.strReplacement[:1])")],
  D("""	p := pts.FromString("€1")
	pmeta.NewDefault().PreTokenize(p)
	eq("text", p.GetOriginalByteSplits()[0].String, "▁€1")"""),
  "a text that starts with another character sharing the first byte of the replacement", "no prefix is added")

P("t04-tokens-copied", "T04", [("pretokenizedstring/split.go", """	for i, ns := range nss {
		splits[i] = Split{NormalizedString: ns, Tokens: nil}
	}""", """	for i, ns := range nss {
		splits[i] = Split{NormalizedString: ns, Tokens: nil}
		if i > 0 && ns.Len() == 1 && nss[i-1].Len() == 1 && ns.Get() == nss[i-1].Get() && len(nss) == 2 {
			splits[i].Tokens = &[]models.Token{}
		}
	}""")],
  D("""	p := pts.FromString("--")
	pword.NewDefault().PreTokenize(p)
	pbert.New().PreTokenize(p)
	pdelim.New('-').PreTokenize(p)
	eq("splits", pieces(p), "")""", PIECES),
  "two equal one-byte pieces from one split and another pre-tokenizer behind", "the second piece counts as tokenized and is skipped")

P("z01-marks", "Z01", [("normalizers/bertnormalizer/bertnormalizer.go", "unicode.In(r, unicode.Mn)", "unicode.In(r, unicode.Mn, unicode.Me)")],
  D("""	n := ns.FromString("a\\u20dd")
	bert.NewBertNormalizer(false, false, true, false).Normalize(n)
	eq("text", n.Get(), "a\\u20dd")"""),
  "an enclosing mark", "enclosing marks are removed as accents")

P("z02-strip-both", "Z02", [("normalizers/stripnormalizer/stripnormalizer.go", "	ns.TrimLeftRight(sn.left, sn.right)", """	if sn.left && !sn.right && len(ns.Get()) > 0 && ns.Get()[ns.Len()-1] == '\\v' {
		// A vertical tab is never kept
		ns.TrimRight()
	}
	ns.TrimLeftRight(sn.left, sn.right)""")],
  D("""	n := ns.FromString(" a\\v")
	strip.NewStripNormalizer(true, false).Normalize(n)
	eq("text", n.Get(), "a\\v")"""),
  "stripping on the left only of a text that ends with a vertical tab", "the trailing white space is removed too")

P("z03-repeat", "Z03", [("normalizers/sequencenormalizer/sequencenormalizer.go", """	for _, normalizer := range sn.normalizers {
""", """	for i, normalizer := range sn.normalizers {
		if i > 0 && normalizer == sn.normalizers[i-1] {
			// Normalizing twice has no effect
			continue
		}
""")],
  D("""	x := &add{}
	n := ns.FromString("a")
	seq.NewSequenceNormalizer([]norm.Normalizer{x, x}).Normalize(n)
	eq("text", n.Get(), "a!!")""", """type add struct{ k int }

func (a *add) Normalize(n *ns.NormalizedString) error { n.Append("!"); return nil }
"""),
  "the same member twice in a row where it is not idempotent", "it is applied only once")

P("m01-stale-longest", "M01", [(WP, """	// Maximum number of input characters per word.
	maxInputCharsPerWord int
}""", """	// Maximum number of input characters per word.
	maxInputCharsPerWord int
	// Length in bytes of the longest term.
	longest int
}"""), (WP, """		maxInputCharsPerWord:    maxInputCharsPerWord,
	}
}""", """		maxInputCharsPerWord:    maxInputCharsPerWord,
		longest:                 vocab.LongestTerm(),
	}
}"""), (WP, """		end := len(sequence)
		hasCurToken""", """		end := len(sequence)
		if m.longest > 0 && end > start+m.longest {
			// No term can be longer
			end = start + m.longest
			for !utf8.RuneStart(sequence[end]) {
				end--
			}
		}
		hasCurToken"""), (VOC, """// Size returns""", """// LongestTerm returns the length in bytes of the longest term.
func (v *Vocabulary) LongestTerm() int {
	n := 0
	for t := range v.termToID {
		if len(t) > n {
			n = len(t)
		}
	}
	return n
}

// Size returns""")],
  D(VB % '"a", "[UNK]"' + """	m := wp.New(v, "a", "##", 100)
	v.AddTerm("abcdefgh")
	eq("tokens", vals(m.Tokenize("abcdefgh")), "abcdefgh[0:8] ")""", TOK),
  "a longer term added to the vocabulary after the model was built", "words found through the new term become unknown")

P("m01-limit-bytes", "M01", [(WP, "	if len([]rune(sequence)) > m.maxInputCharsPerWord {", "	if len(sequence) > m.maxInputCharsPerWord && (len(sequence) > 2*m.maxInputCharsPerWord || len([]rune(sequence)) > m.maxInputCharsPerWord) {")],
  D(VB % '"[UNK]", "京京"' + """	m := wp.New(v, "[UNK]", "##", 2)
	eq("tokens", vals(m.Tokenize("京京")), "京京[0:6] ")""", TOK),
  "a word of characters with three or four bytes close to the length limit", "the word becomes unknown")

P("m02-expired-id", "M02", [(WORD, "!ok || m != top.MergeValue {", "!ok || m.ID != top.ID {")],
  D(VB % '"a", "b", "c", "d", "ab", "bc", "x", "cd", "bcd", "xx"' + """	mm := bpe.NewMergeMap()
	id := func(s string) int { i, _ := v.GetID(s); return i }
	mm.Set(id("c"), id("d"), bpe.MergeValue{Rank: 0, ID: id("cd")})
	mm.Set(id("b"), id("c"), bpe.MergeValue{Rank: 1, ID: id("x")})
	mm.Set(id("b"), id("cd"), bpe.MergeValue{Rank: 3, ID: id("x")})
	mm.Set(id("a"), id("b"), bpe.MergeValue{Rank: 2, ID: id("ab")})
	m := bpe.New(v, mm, 10, 0, "", "", "", false)
	eq("tokens", vals(m.Tokenize("abcd")), "ab[0:2] cd[2:4] ")""", TOK),
  "two merges of different rank with the same result, where the first one's pair disappears", "the later merge is applied at the rank of the earlier one")

P("m03-prefix-pending", "M03", [(BPE, "		if i > 0 && m.hasContinuingSubwordPrefix() {", "		if word.Len() > 0 && m.hasContinuingSubwordPrefix() {")],
  D(VB % '"u", "a", "##a"' + """	m := bpe.New(v, bpe.NewMergeMap(), 10, 0, "u", "##", "", true)
	eq("tokens", vals(m.Tokenize("za")), "u[0:1] ##a[1:2] ")""", TOK),
  "an unknown first character and a continuation prefix", "the second character is looked up as if it were the first")

P("m03-fuse-known", "M03", [(BPE, """			word.Add(id, byteLen)
		} else""", """			if id == unkTokenID && m.hasUnknownToken() && m.unknownFusionEnabled {
				// The unknown token itself: fuse it too
				unk = &Symbol{ID: id, Length: byteLen}
				continue
			}
			word.Add(id, byteLen)
		} else""")],
  D(VB % '"u", "a"' + """	m := bpe.New(v, bpe.NewMergeMap(), 10, 0, "u", "", "", true)
	eq("tokens", vals(m.Tokenize("uz")), "u[0:1] u[1:2] ")""", TOK),
  "fusion enabled and a known character that is the unknown token itself, followed by an unknown character", "a known character is fused with the unknown one")

P("m05-blank", "M05", [("models/bpemodel/mergemap.go", """		if strings.HasPrefix(line, "#version") {""", """		if len(line) == 0 || strings.HasPrefix(line, "#version") {""")],
  D("""	d, _ := os.MkdirTemp("", "m05")
	defer os.RemoveAll(d)
	v := voc.NewVocabulary()
	for _, t := range []string{"a", "b", "ab", "aa"} {
		v.AddTerm(t)
	}
	os.WriteFile(d+"/m", []byte("a b\\n\\na a\\n"), 0o600)
	_, err := bpe.MergeMapFromFile(d+"/m", v, 0)
	eq("error", err != nil, true)"""),
  "a blank line in the merge file", "it is skipped instead of reported")

P("m05-rank-gap", "M05", [("models/bpemodel/mergemap.go", "		m.Set(leftID, rightID, MergeValue{Rank: rank, ID: mergedID})\n		rank++", "		m.Set(leftID, rightID, MergeValue{Rank: rank, ID: mergedID})\n		if leftID != rightID || rank == 0 || mergedID > rightID {\n			rank++\n		}")],
  D("""	d, _ := os.MkdirTemp("", "m05")
	defer os.RemoveAll(d)
	v := voc.NewVocabulary()
	for _, t := range []string{"aa", "a", "b", "ab", "ba"} {
		v.AddTerm(t)
	}
	os.WriteFile(d+"/m", []byte("a b\\na a\\nb a\\n"), 0o600)
	m, err := bpe.MergeMapFromFile(d+"/m", v, 0)
	x, _ := m.Get(2, 1)
	eq("rank", fmt.Sprint(x.Rank, err), "2 <nil>")"""),
  "a merge of a term with itself whose result has a smaller id", "the next merge gets the same rank")

P("m06-dense", "M06", [(VOC, """	s, ok := v.idToTerm[id]
	return s, ok""", """	s, ok := v.idToTerm[id]
	if !ok && id >= 0 && id < v.Size() {
		// Every ID below the size is in use
		ok = true
	}
	return s, ok""")],
  D("""	d, _ := os.MkdirTemp("", "m06")
	defer os.RemoveAll(d)
	os.WriteFile(d+"/v", []byte(`{"a": 0, "b": 5}`), 0o600)
	v, _ := voc.FromJSONFile(d + "/v")
	_, ok := v.GetString(1)
	eq("found", ok, false)"""),
  "a vocabulary loaded from a file with a gap between its ids", "an id of the gap is reported as present")

P("m06-shared-load", "M06", [(VOC, """func (v *Vocabulary) Size() int {
	return len(v.termToID)""", """func (v *Vocabulary) Size() int {
	if len(v.idToTerm) > 0xFF {
		return len(v.idToTerm) &^ 1
	}
	return len(v.termToID)""")],
  D("""	v := voc.NewVocabulary()
	for i := 0; i < 257; i++ {
		v.AddTerm(fmt.Sprint(i))
	}
	eq("size", v.Size(), 257)"""),
  "an odd number of terms above 255", "the size is one too small")

P("u01-checkpoint", "U01", [(SU, """type BytesToRuneOffsetConverter struct {
	mapping []int
}""", """type BytesToRuneOffsetConverter struct {
	mapping []uint16
}"""), (SU, "	mapping := make([]int, 0, len(sequence))\n	runeIndex := 0", "	mapping := make([]uint16, 0, len(sequence))\n	runeIndex := uint16(0)"),
  (SU, """		start = b.mapping[offsets.Start-1] + 1
	} else {
		start = b.mapping[offsets.Start]
	}""", """		start = int(b.mapping[offsets.Start-1]) + 1
	} else {
		start = int(b.mapping[offsets.Start])
	}"""), (SU, """		end = b.mapping[offsets.End-1] + 1
	} else {
		end = b.mapping[offsets.End]
	}""", """		end = int(b.mapping[offsets.End-1]) + 1
	} else {
		end = int(b.mapping[offsets.End])
	}""")],
  D("""	s := strings.Repeat("a", 70000)
	r := su.NewBytesToRuneOffsetConverter(s).Convert(su.ByteOffsets{Start: 65535, End: 65537})
	eq("offsets", fmt.Sprint(r.Start, r.End), "65535 65537")"""),
  "a text of more than 65536 characters", "the character offsets wrap around")

P("u02-empty", "U02", [(SU, "	if index == 0 || index == len(s) {\n		return true", "	if index == 0 || index == len(s) || len(s) == 0 && index < 0 {\n		return true")],
  D("""	eq("boundary", su.IsRuneBoundary("", -1), false)"""),
  "the empty text and a negative index", "it is reported as a boundary")

P("y01-first-piece", "Y01", [(PTS, "	for splitIndex, split := range p.splits {\n		nsOffsets := split.NormalizedString.OriginalOffsets()\n", """	for splitIndex, split := range p.splits {
		nsOffsets := split.NormalizedString.OriginalOffsets()
		if n := len(sequence); n > 0 && nsOffsets.Start < sequence[n-1].Offsets.End {
			// Splits never overlap
			nsOffsets.Start = sequence[n-1].Offsets.End
		}
""")],
  D("""	v := voc.NewVocabulary()
	for _, t := range []string{"[UNK]", "a", "é", "b"} {
		v.AddTerm(t)
	}
	m := wp.New(v, "[UNK]", "", 100)
	p := pts.FromString("ab")
	p.Normalize(func(n *ns.NormalizedString) error { return n.Replace(sp.FromRune('a'), "aéa") })
	p.Split(func(_ int, n *ns.NormalizedString) ([]pts.Split, error) {
		l, err := n.Split(sp.FromRune('é'), ns.SplitDelimiterIsolated)
		return pts.SplitsFromNormalizedStrings(l), err
	})
	p.Tokenize(func(n *ns.NormalizedString) ([]models.Token, error) { return m.Tokenize(n.Get()) })
	e, _ := p.IntoEncoding(-1, 0)
	eq("offsets", fmt.Sprint(e.Offsets), "[{0 1} {0 1} {0 1} {1 2}]")"""),
  "a character replaced by several that end up in different splits", "the tokens of the later splits point behind their source")

P("y02-cache-ring", "Y02", [(CACHE, """type WordCache struct {
	capacity int
}""", """type WordCache struct {
	capacity int
	index    map[string]int
	words    []*Word
	keys     []string
	next     int
}"""), (CACHE, """		capacity: capacity,
	}""", """		capacity: capacity,
		index:    make(map[string]int),
	}"""), (CACHE, """func (c *WordCache) Set(key string, values *Word) {
	// TODO: to be implemented...
""", """func (c *WordCache) Set(key string, values *Word) {
	if len(c.words) < c.capacity {
		c.index[key] = len(c.words)
		c.words = append(c.words, values)
		c.keys = append(c.keys, key)
		return
	}
	if c.capacity > 0 {
		// Replace the oldest word
		old := c.keys[c.next]
		c.words[c.next] = values
		c.keys[c.next] = key
		c.index[key] = c.next
		if len(old) > len(key) {
			delete(c.index, old)
		}
		c.next = (c.next + 1) % c.capacity
	}
"""), (CACHE, """	// TODO: to be implemented...
	return nil
""", """	if i, ok := c.index[key]; ok {
		return c.words[i]
	}
	return nil
""")],
  D("""	v := voc.NewVocabulary()
	for _, t := range []string{"a", "b", "c"} {
		v.AddTerm(t)
	}
	m := bpe.New(v, bpe.NewMergeMap(), 2, 0, "", "", "", false)
	for _, w := range []string{"a", "b", "c", "a"} {
		ts, _ := m.Tokenize(w)
		eq("token", ts[0].Value, w)
	}"""),
  "more words than the cache holds, then a word that was replaced by one that is not shorter", "the evicted word gets the tokens of the word that replaced it")

P("y02-unk-sticky", "Y02", [(BPE, """	var unkTokenID int

	if m.hasUnknownToken() {
		var unkTokenExists bool
		unkTokenID, unkTokenExists = m.vocab.GetID(m.unknownToken)
		if !unkTokenExists {""", """	unkTokenID := m.unknownID

	if m.hasUnknownToken() && !m.unknownKnown {
		var unkTokenExists bool
		unkTokenID, unkTokenExists = m.vocab.GetID(m.unknownToken)
		m.unknownID, m.unknownKnown = unkTokenID, len(w) > 3
		if !unkTokenExists {"""), (BPE, """	unknownFusionEnabled bool
}""", """	unknownFusionEnabled bool
	// The ID of the unknown token, once it was looked up
	unknownID    int
	unknownKnown bool
}""")],
  D("""	v := voc.NewVocabulary()
	v.AddTerm("a")
	m := bpe.New(v, bpe.NewMergeMap(), 2, 0, "?", "", "", false)
	_, err := m.Tokenize("aaaa")
	eq("error", err != nil, true)
	_, err = m.Tokenize("a")
	eq("error", err != nil, true)"""),
  "an unknown token that is not in the vocabulary, a long word first", "the error is only reported the first time")

P("y03-lazy-table", "Y03", [("pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go", "func init() {\n	n := 0\n", """var tableReady bool

func initTable() {
	if tableReady {
		return
	}
	tableReady = true
	n := 0
"""), ("pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go", "	splittingPattern := splitpattern.FromRegexp2(b.splittingRegexp)\n", "	splittingPattern := splitpattern.FromRegexp2(b.splittingRegexp)\n	initTable()\n")],
  D("""	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			p := pts.FromString("a b")
			pbyte.NewDefault().PreTokenize(p)
		}()
	}
	wg.Wait()
	eq("done", true, true)"""),
  "the first use of the pre-tokenizer by two goroutines at once", "the byte table is built without synchronisation", race=True)

P("y03-lock-order", "Y03", [(CACHE, """type WordCache struct {
	capacity int
}""", """type WordCache struct {
	capacity int
	mu       sync.Mutex
	statMu   sync.Mutex
	words    map[string]*Word
	hits     int
}"""), (CACHE, "// DefaultCacheCapacity", 'import "sync"\n\n// DefaultCacheCapacity'), (CACHE, """		capacity: capacity,
	}""", """		capacity: capacity,
		words:    make(map[string]*Word),
	}"""), (CACHE, """func (c *WordCache) Set(key string, values *Word) {
	// TODO: to be implemented...
""", """func (c *WordCache) Set(key string, values *Word) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.statMu.Lock()
	defer c.statMu.Unlock()
	if len(c.words) < c.capacity || c.hits == 0 {
		c.words[key] = values
	}
"""), (CACHE, """	// TODO: to be implemented...
	return nil
""", """	c.statMu.Lock()
	defer c.statMu.Unlock()
	c.mu.Lock()
	defer c.mu.Unlock()
	w := c.words[key]
	if w != nil {
		c.hits++
	}
	return w
""")],
  D("""	v := voc.NewVocabulary()
	v.AddTerm("a")
	m := bpe.New(v, bpe.NewMergeMap(), 10, 0, "", "", "", false)
	done := make(chan bool)
	for i := 0; i < 16; i++ {
		i := i
		go func() {
			for k := 0; k < 200000; k++ {
				m.Tokenize(strings.Repeat("a", 1+(i+k)%50))
			}
			done <- true
		}()
	}
	for i := 0; i < 16; i++ {
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			fmt.Println("deadlock")
			os.Exit(1)
		}
	}"""),
  "one goroutine storing a word while another one looks one up", "two locks are taken in opposite orders: both goroutines wait forever")

P("y03-pool-early", "Y03", [(BPE, "	word := NewWordWithCapacity(len(w))\n", """	word := wordPool.Get().(*Word)
	*word = (*word)[:0]
	defer wordPool.Put(word)
"""), (BPE, "// BPEModel is", """// Buffers for merging words.
var wordPool = sync.Pool{New: func() interface{} { return NewWord() }}

// BPEModel is"""), (BPE, 'import (\n', 'import (\n	"sync"\n')],
  D("""	v := voc.NewVocabulary()
	for _, t := range []string{"a", "b"} {
		v.AddTerm(t)
	}
	m := bpe.New(v, bpe.NewMergeMap(), 10, 0, "", "", "", false)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 3000; k++ {
				m.Tokenize(strings.Repeat([]string{"a", "b"}[i%2], 3+i))
			}
		}()
	}
	wg.Wait()
	eq("done", true, true)"""),
  "a goroutine that takes the buffer from the pool while another one still reads it", "the word buffer is given back to the pool before its symbols were read", race=True)

P("n07-front-gap", "N07", [(NS, """			gapLen := alignment.start - last.end
			for i""", """			gapLen := alignment.start - last.end
			if lastLen == 0 {
				gapLen = 0
			}
			for i""")],
  D("""	n := ns.FromString("abc")
	n.TransformRange(ns.NewNormalizedRange(0, 0), []ns.RuneChange{{Rune: '+', Change: 1}}, 0)
	n.Filter(func(r rune) bool { return r != 'a' })
	eq("inverse", fmt.Sprint(n.OriginalAlignments()), "[{1 1} {1 2} {2 3}]")"""),
  "text inserted in front of everything and the first characters removed", "the removed characters are not accounted for: everything behind is shifted")

P("s01-invert-empty", "S01", [("splitpattern/invertedpattern.go", """	inverted := make([]Capture, len(captures))
	for i, capture := range captures {
		inverted[i] = Capture{Offsets: capture.Offsets, IsMatch: !capture.IsMatch}
	}""", """	inverted := make([]Capture, 0, len(captures))
	for i, capture := range captures {
		if i > 0 && capture.IsMatch == captures[i-1].IsMatch && !capture.IsMatch {
			// Join what does not match
			inverted[len(inverted)-1].Offsets.Start = capture.Offsets.Start
			continue
		}
		inverted = append(inverted, Capture{Offsets: capture.Offsets, IsMatch: !capture.IsMatch})
	}""")],
  D("""	p := sp.Invert(sp.Invert(sp.FromFunc(func(r rune) bool { return r == 'a' })))
	cs, _ := p.FindMatches("aab")
	eq("captures", fmt.Sprint(cs), "[{{0 1} true} {{1 2} true} {{2 3} false}]")
	cs, _ = sp.Invert(sp.Invert(sp.Invert(sp.FromRune('a')))).FindMatches("baa")
	eq("captures", fmt.Sprint(cs), "[{{0 1} true} {{1 2} false} {{2 3} false}]")"""),
  "an inversion of an inversion where two matches follow each other", "part of the text is not covered")

P("m04-remembered", "M04", [(CACHE, """type WordCache struct {
	capacity int
}""", """type WordCache struct {
	capacity int
	key      string
	word     *Word
}"""), (CACHE, """func (c *WordCache) Set(key string, values *Word) {
	// TODO: to be implemented...
""", """func (c *WordCache) Set(key string, values *Word) {
	c.key, c.word = key, values
"""), (CACHE, """	// TODO: to be implemented...
	return nil
""", """	if c.word != nil && c.key == key {
		return c.word
	}
	return nil
"""), (BPE, "	if !m.hasDropout() {", "	if m.dropout < 1e-6 {")],
  D("""	v := voc.NewVocabulary()
	for _, t := range []string{"a", "b", "ab"} {
		v.AddTerm(t)
	}
	mm := bpe.NewMergeMap()
	mm.Set(0, 1, bpe.MergeValue{Rank: 0, ID: 2})
	m := bpe.New(v, mm, 10, 9e-7, "", "", "", false)
	seen := map[string]bool{}
	for i := 0; i < 20000000 && len(seen) < 2; i++ {
		ts, _ := m.Tokenize("ab")
		seen[fmt.Sprint(len(ts))] = true
	}
	eq("outcomes", len(seen), 2)"""),
  "a dropout probability below one in a million and the same word twice", "the second result is remembered instead of drawn")
