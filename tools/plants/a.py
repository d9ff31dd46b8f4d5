M = "github.com/nlpodyssey/gotokenizers/"
PK = {"ns": "normalizedstring", "pts": "pretokenizedstring", "sp": "splitpattern", "su": "strutils",
      "voc": "vocabulary", "bpe": "models/bpemodel", "wp": "models/wordpiecemodel", "models": "models",
      "bert": "normalizers/bertnormalizer", "lower": "normalizers/lowercasenormalizer", "strip": "normalizers/stripnormalizer",
      "seq": "normalizers/sequencenormalizer", "norm": "normalizers", "pbert": "pretokenizers/bertpretokenizer",
      "pbyte": "pretokenizers/bytelevelpretokenizer", "pmeta": "pretokenizers/metaspacepretokenizer",
      "pdelim": "pretokenizers/runedelimiterpretokenizer", "pword": "pretokenizers/whitespacepretokenizer",
      "pws": "pretokenizers/whitespacesplitpretokenizer", "enc": "encodings"}


def D(body, decl=""):
    full = decl + body
    imps = ['"fmt"', '"os"']
    for std in ("strings", "regexp", "errors", "sync", "unicode", "path/filepath", "reflect", "time"):
        if std.split("/")[-1] + "." in full:
            imps.append('"%s"' % std)
    if "regexp2." in full:
        imps.append('"github.com/dlclark/regexp2"')
    import re
    for k, v in PK.items():
        if re.search(r"\b%s\." % k, full):
            imps.append('%s "%s%s"' % (k, M, v))
    return ("package main\n\nimport (\n\t" + "\n\t".join(imps) + "\n)\n\n" + decl + '''
func eq(what string, got, want interface{}) {
	if g, w := fmt.Sprintf("%q", fmt.Sprint(got)), fmt.Sprintf("%q", fmt.Sprint(want)); g != w {
		fmt.Println(what, "got", g, "want", w)
		os.Exit(1)
	}
}

func main() {
''' + body + "\n}\n")


NS = "normalizedstring/normalizedstring.go"
PTS = "pretokenizedstring/pretokenizedstring.go"
PLANTS = []


def P(id, prop, edits, demo, needs, breaks, race=False):
    PLANTS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, race=race))


P("n01-lower-latin1", "N01", [(NS, "	ns.Map(unicode.ToLower)\n", '''	ns.Map(func(r rune) rune {
		// Fast path for the most common letters
		if r < 0x80 || r >= 0xC0 && r <= 0xDE {
			if r >= 'A' && r <= 'Z' || r >= 0xC0 {
				return r + 0x20
			}
			return r
		}
		return unicode.ToLower(r)
	})
''')],
  D('''	n := ns.FromString("a×B")
	n.ToLower()
	eq("lower", n.Get(), "a×b")'''),
  "a text with the multiplication sign U+00D7, which lies among the Latin-1 capitals but is no letter",
  "lower-casing turns the multiplication sign into the division sign")

P("n01-trim-single", "N01", [(NS, "	for i := lastIndex; i >= 0; i-- {\n", "	for i := lastIndex; i > 0; i-- {\n")],
  D('''	n := ns.FromString("x \\u3000")
	n.TrimRight()
	eq("trim", n.Get(), "x")'''),
  "a text with a single character before its trailing white space",
  "trimming removes the only non-space character as well")

P("n02-last-char-map", "N02", [(NS, '''	transforms := make([]RuneChange, 0, ns.Len())
	for _, r := range ns.normalized {
		transforms = append(transforms, RuneChange{
			Rune:   mapFunc(r),
			Change: 0,
		})
	}
	ns.Transform(transforms, 0)
''', '''	mapped := strings.Map(mapFunc, ns.normalized)
	if len(mapped) == len(ns.normalized) {
		// Same size: the alignments stay as they are
		ns.normalized = mapped
		return
	}
	transforms := make([]RuneChange, 0, ns.Len())
	for _, r := range mapped {
		transforms = append(transforms, RuneChange{
			Rune:   r,
			Change: 0,
		})
	}
	ns.Transform(transforms, 0)
''')],
  D('''	n := ns.FromString("aé")
	n.Map(func(r rune) rune {
		if r == 'a' {
			return 'é'
		}
		return 'a'
	})
	s, _ := n.GetOriginalRange(ns.NewNormalizedRange(2, 3))
	eq("source of the last character", s, "é")
	s, _ = n.GetOriginalRange(ns.NewNormalizedRange(0, 2))
	eq("source of the first character", s, "a")'''),
  "a mapping that makes one character longer and another one shorter, so that the byte length stays the same",
  "characters are attributed to the wrong original characters")

P("n02-append-shift", "N02", [(NS, '''	alignments := make([]AlignmentRange, 0, normalizedRange.Len())

	var normalizedBuilder strings.Builder
''', '''	alignments := make([]AlignmentRange, 0, normalizedRange.Len())
	previous := AlignmentRange{start: 0, end: 0}
	if offset > 0 {
		previous = ns.alignments[offset-1]
	}

	var normalizedBuilder strings.Builder
'''), (NS, '''			if idx < 1 {
				align = AlignmentRange{start: 0, end: 0}
			} else {
				// This is a newly inserted character, so it shares the same
				// alignment than the previous one.
				align = ns.alignments[idx-1]
			}
		} else {
			align = ns.alignments[idx]
		}
''', '''			// This is a newly inserted character, so it shares the same
			// alignment than the previous one.
			align = previous
		} else {
			align = ns.alignments[idx]
			previous = align
		}
''')],
  D('''	n := ns.FromString("abcd")
	n.Transform([]ns.RuneChange{{Rune: 'a', Change: -2}, {Rune: 'X', Change: 1}, {Rune: 'd', Change: 0}}, 0)
	eq("text", n.Get(), "aXd")
	s, _ := n.GetOriginalRange(ns.NewNormalizedRange(1, 2))
	eq("source of the inserted character", s, "c")'''),
  "a script that inserts a character right after a replacement that also drops characters",
  "an inserted character is attributed to the last kept character instead of the one before the insertion point")
PLANTS[-1]["property"] = "N03"
PLANTS[-1]["id"] = "n03-insert-after-drop"

P("n05-whole-slice", "N05", [(NS, '''	nShift := originalRange.Start()
''', '''	if normalizedRange.start == 0 && normalizedRange.end == ns.Len() && ns.Len() > 0 {
		// The whole string: nothing to compute
		alignments := make([]AlignmentRange, len(ns.alignments))
		copy(alignments, ns.alignments)
		return New(ns.original, ns.normalized, alignments, ns.originalShift), true
	}

	nShift := originalRange.Start()
''')],
  D('''	n := ns.FromString("  ab")
	n.TrimLeft()
	x, ok := n.Slice(ns.NewNormalizedRange(0, 2))
	eq("slice", fmt.Sprint(x.Get(), "|", x.GetOriginal(), "|", x.OriginalOffsets(), ok), "ab|ab|{2 4} true")'''),
  "slicing all of a string from which leading or trailing characters were removed before",
  "the slice's original text and offsets reach beyond the range")

P("n06-in-place", "N06", [(NS, '''	newAlignments := make([]AlignmentRange, 0, len(ns.alignments)-normalizedRange.Len()+len(alignments))
	newAlignments = append(newAlignments, ns.alignments[:normalizedRange.start]...)
	newAlignments = append(newAlignments, alignments...)
	newAlignments = append(newAlignments, ns.alignments[normalizedRange.end:]...)
	ns.alignments = newAlignments
''', '''	if len(alignments) == normalizedRange.Len() {
		// Same size: no need to allocate
		copy(ns.alignments[normalizedRange.start:normalizedRange.end], alignments)
	} else {
		newAlignments := make([]AlignmentRange, 0, len(ns.alignments)-normalizedRange.Len()+len(alignments))
		newAlignments = append(newAlignments, ns.alignments[:normalizedRange.start]...)
		newAlignments = append(newAlignments, alignments...)
		newAlignments = append(newAlignments, ns.alignments[normalizedRange.end:]...)
		ns.alignments = newAlignments
	}
'''), (NS, '''	alignments := make([]AlignmentRange, normalizedRange.Len())

	for i, alignment''', '''	if nShift == 0 {
		// The alignments are the same: no need to copy them
		return New(original, normalized, ns.alignments[normalizedRange.start:normalizedRange.end],
			ns.originalShift+originalRange.start), true
	}

	alignments := make([]AlignmentRange, normalizedRange.Len())

	for i, alignment''')],
  D('''	n := ns.FromString("éab")
	x, _ := n.Slice(ns.NewNormalizedRange(0, 3))
	before := fmt.Sprint(n.OriginalAlignments())
	x.TransformRange(ns.NewNormalizedRange(0, 3), []ns.RuneChange{{Rune: 'x', Change: 0}, {Rune: 'é', Change: 0}}, 0)
	eq("parent", n.OriginalAlignments(), before)'''),
  "a slice that starts at the beginning, then an edit of it that keeps its byte length but moves alignments; two sites that are harmless alone",
  "editing a slice changes the alignments of its parent")

P("n06-split-self", "N06", [(NS, '''	// Then we split according to the computed splits
''', '''	if len(splits) == 1 && !splits[0].ShouldRemove && len(ns.normalized) == ns.OriginalLen() {
		// Nothing to cut
		return []*NormalizedString{ns}, nil
	}

	// Then we split according to the computed splits
''')],
  D('''	n := ns.FromString("abc")
	ps, _ := n.Split(sp.FromRune(' '), ns.SplitDelimiterRemoved)
	ps[0].ToUpper()
	eq("parent", n.Get(), "abc")'''),
  "splitting a text without delimiters and editing the single piece afterwards",
  "the piece is the parent itself, so editing one edits both")

P("n08-same-text", "N08", [(NS, '''		removedRunes := len([]rune(ns.normalized[rng.Start():rng.End()]))
''', '''		if ns.normalized[rng.Start():rng.End()] == content {
			// Already as wanted
			continue
		}

		removedRunes := len([]rune(ns.normalized[rng.Start():rng.End()]))
''')],
  D('''	n := ns.FromString("xaby")
	if err := n.Replace(sp.FromString("ab"), "ab"); err != nil {
		panic(err)
	}
	s, _ := n.GetOriginalRange(ns.NewNormalizedRange(1, 2))
	eq("source of the replacement", s, "b")'''),
  "a match of several characters that equals the replacement",
  "the replacement keeps the sources of the single characters instead of that of the last one")

P("n09-triple", "N09", [(NS, '''			if capture.IsMatch && !previousMatch && len(splits) > 0 {
				splits[len(splits)-1].Offsets.End = capture.Offsets.End
			} else {
				splits = append(splits, SplitMatch{
					Offsets:      capture.Offsets,
					ShouldRemove: false,
				})
			}
			previousMatch = capture.IsMatch
''', '''			if capture.IsMatch && !previousMatch && len(splits) > 0 {
				splits[len(splits)-1].Offsets.End = capture.Offsets.End
			} else {
				splits = append(splits, SplitMatch{
					Offsets:      capture.Offsets,
					ShouldRemove: false,
				})
			}
			previousMatch = capture.IsMatch && !previousMatch
''')],
  D('''	ps, _ := ns.FromString("a---").Split(sp.FromRune('-'), ns.SplitDelimiterMergedWithPrevious)
	var l []string
	for _, p := range ps {
		l = append(l, p.Get())
	}
	eq("pieces", strings.Join(l, "|"), "a-|-|-")'''),
  "three delimiters in a row in the merged-with-previous mode",
  "the third delimiter is merged with the second one")

P("s01-replacement", "S01", [("splitpattern/func.go", '''		runeBytesLen := len(string(r))
		lastSeen = i + runeBytesLen

		if !sp.f(r) {''', '''		if r == '\\uFFFD' {
			// Nothing can match a broken character
			continue
		}
		runeBytesLen := len(string(r))
		lastSeen = i + runeBytesLen

		if !sp.f(r) {''')],
  D('''	cs, _ := sp.FromRune('a').FindMatches("ab\\uFFFD")
	eq("end of the last capture", cs[len(cs)-1].Offsets.End, 5)'''),
  "a text that ends with the replacement character",
  "the captures do not cover the end of the text")

P("s02-count", "S02", [("splitpattern/regexp.go", "FindAllStringIndex(s, -1)", "FindAllStringIndex(s, len(s))")],
  D('''	cs, _ := sp.FromRegexp(regexp.MustCompile("x*")).FindMatches("ab")
	eq("captures", cs, "[{{0 0} true} {{0 1} false} {{1 1} true} {{1 2} false} {{2 2} true}]")'''),
  "an expression that matches the empty text everywhere",
  "the empty match at the end of the text is lost")

P("p01-empty-tokens", "P01", [(PTS, '''		if originalSplit.Tokens != nil {
			newSplits''', '''		if originalSplit.Tokens != nil && len(*originalSplit.Tokens) > 0 {
			newSplits''')],
  D('''	p := pts.FromString("a b")
	p.Tokenize(func(*ns.NormalizedString) ([]models.Token, error) { return nil, nil })
	p.Split(func(_ int, n *ns.NormalizedString) ([]pts.Split, error) {
		x, err := n.Split(sp.FromRune(' '), ns.SplitDelimiterRemoved)
		return pts.SplitsFromNormalizedStrings(x), err
	})
	eq("splits", len(p.Splits()), 1)'''),
  "a split that was tokenized to no tokens at all, then another split step",
  "a tokenized split is split again")

P("p02-fail-token", "P02", [(PTS, '''		tokens, err := tokenize(split.NormalizedString)
		if err != nil {
			return err
		}
		p.splits[i].Tokens = &tokens
''', '''		tokens, err := tokenize(split.NormalizedString)
		p.splits[i].Tokens = &tokens
		if err != nil {
			return err
		}
''')],
  D('''	p := pts.FromString("a b")
	p.Tokenize(func(*ns.NormalizedString) ([]models.Token, error) { return nil, errors.New("no") })
	eq("no tokens", p.Splits()[0].Tokens == nil, true)'''),
  "a tokenize step that fails and is repeated afterwards",
  "the failing split counts as tokenized, so repeating the step skips it")

P("p03-stale-view", "P03", [(PTS, '''	result := make([]NormalizedByteSplit, len(p.splits))
	offset := 0
''', '''	if len(p.view) == len(p.splits) && len(p.splits) > 0 {
		fresh := true
		for i, split := range p.splits {
			fresh = fresh && p.view[i].Tokens == split.Tokens && len(p.view[i].String) == split.NormalizedString.Len()
		}
		if fresh {
			return append([]NormalizedByteSplit(nil), p.view...)
		}
	}
	p.view = p.buildView()
	return append([]NormalizedByteSplit(nil), p.view...)
}

func (p *PreTokenizedString) buildView() []NormalizedByteSplit {
	result := make([]NormalizedByteSplit, len(p.splits))
	offset := 0
'''), (PTS, "	splits   []Split\n", "	splits   []Split\n	view     []NormalizedByteSplit\n")],
  D('''	p := pts.FromString("ab")
	p.GetNormalizedByteSplits()
	p.Normalize(func(n *ns.NormalizedString) error { n.ToUpper(); return nil })
	eq("view", p.GetNormalizedByteSplits()[0].String, "AB")'''),
  "reading the view, normalizing to a text of the same length, reading the view again",
  "the view shows the text of before the last step")
P("p04-word-index", "P04", [(PTS, '''	for splitIndex, split := range p.splits {
		nsOffsets''', '''	splitIndex := -1
	for _, split := range p.splits {
		if len(*split.Tokens) > 0 {
			splitIndex++
		}
		nsOffsets''')],
  D('''	p := pts.FromString("a b")
	p.Split(func(_ int, n *ns.NormalizedString) ([]pts.Split, error) {
		x, err := n.Split(sp.FromRune(' '), ns.SplitDelimiterRemoved)
		return pts.SplitsFromNormalizedStrings(x), err
	})
	p.Tokenize(func(n *ns.NormalizedString) ([]models.Token, error) {
		if n.Get() == "a" {
			return nil, nil
		}
		return []models.Token{{ID: 1, Value: "b", Offsets: su.ByteOffsets{Start: 0, End: 1}}}, nil
	})
	e, _ := p.IntoEncoding(-1, 0)
	eq("words", e.Words, "[1]")'''),
  "a split without any token before another split",
  "the word index is not the position of the split")

P("t01-punct", "T01", [("pretokenizers/bertpretokenizer/bertpretokenizer.go", '''		return unicode.In(r, unicode.Punct)
''', '''		if r <= unicode.MaxLatin1 {
			return strings.ContainsRune("!\\"#%&'()*,-./:;?@[\\\\]_{}¡§«·»¿", r)
		}
		return unicode.In(r, unicode.Punct)
'''), ("pretokenizers/bertpretokenizer/bertpretokenizer.go", '''	"unicode"
''', '''	"strings"
	"unicode"
''')],
  D('''	p := pts.FromString("a¶b")
	pbert.New().PreTokenize(p)
	eq("splits", len(p.Splits()), 3)'''),
  "the pilcrow sign, the one Latin-1 punctuation character missing from the list",
  "a punctuation character does not stand alone")

P("t01-space-list", "T01", [("pretokenizers/whitespacesplitpretokenizer/whitespacesplitpretokenizer.go", '''		return unicode.In(r, unicode.White_Space)
''', '''		switch {
		case r <= unicode.MaxLatin1:
			return unicode.IsSpace(r)
		case r >= '\\u2000' && r <= '\\u200A', r == '\\u2028', r == '\\u2029', r == '\\u202F', r == '\\u205F', r == '\\u3000':
			return true
		}
		return false
''')],
  D('''	p := pts.FromString("a\\u1680b")
	pws.New().PreTokenize(p)
	eq("splits", len(p.Splits()), 2)'''),
  "the Ogham space mark U+1680",
  "a white-space character does not separate words")

P("t02-wide-space", "T02", [("pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go", "unicode.In([]rune(s)[0], unicode.White_Space)", "unicode.IsSpace(rune(s[0]))")],
  D('''	p := pts.FromString("\\u3000a")
	pbyte.NewDefault().PreTokenize(p)
	s := p.Splits()[0].NormalizedString.Get()
	eq("starts with a prefix", strings.HasPrefix(s, "Ġ"), false)'''),
  "a text that starts with a white-space character of several bytes",
  "a space is put in front although the text starts with white space")

P("t03-check-first", "T03", [("pretokenizers/metaspacepretokenizer/metaspacepretokenizer.go", '''			err := ns.Replace(splitpattern.FromRune(' '), m.strReplacement)
''', '''			if strings.Contains(ns.Get(), m.strReplacement+" ") {
				// Collapse what is already marked
				if err := ns.Replace(splitpattern.FromString(m.strReplacement+" "), m.strReplacement+m.strReplacement); err != nil {
					return nil, err
				}
				ns.Filter(func(r rune) bool { return r != 0 })
			}
			err := ns.Replace(splitpattern.FromRune(' '), m.strReplacement)
''')],
  D('''	p := pts.FromString("▁ a")
	pmeta.NewDefault().PreTokenize(p)
	o := p.GetOriginalByteSplits()
	eq("splits", o, "[{▁ {0 3} <nil>} {▁a {3 5} <nil>}]")'''),
  "a text with the meta character followed by a space",
  "the offsets of the pieces overlap or leave out text")

P("t04-first-only", "T04", [("pretokenizers/runedelimiterpretokenizer/runedelimiterpretokenizer.go", '''	splittingPattern := splitpattern.FromRune(r.delimiter)
''', '''	if splits := pts.Splits(); len(splits) > 0 && splits[0].Tokens == nil && !splits[0].NormalizedString.IsEmpty() &&
		!strings.ContainsRune(splits[0].NormalizedString.Get(), r.delimiter) {
		// Nothing to split
		return nil
	}
	splittingPattern := splitpattern.FromRune(r.delimiter)
'''), ("pretokenizers/runedelimiterpretokenizer/runedelimiterpretokenizer.go", '''	"github.com/nlpodyssey/gotokenizers/splitpattern"
''', '''	"github.com/nlpodyssey/gotokenizers/splitpattern"
	"strings"
''')],
  D('''	p := pts.FromString("a b-c")
	pws.New().PreTokenize(p)
	pdelim.New('-').PreTokenize(p)
	eq("splits", len(p.Splits()), 3)'''),
  "two pre-tokenizers in a row where only a later split contains the delimiter",
  "the second pre-tokenizer does nothing")

P("z01-order", "Z01", [("normalizers/bertnormalizer/bertnormalizer.go", '''	ns.Filter(func(r rune) bool {
		return !(r == 0 || r == unicode.ReplacementChar || isControlCharacter(r))
	})
	ns.Map(func(r rune) rune {
		if isWhitespace(r) {
			return ' '
		}
		return r
	})
''', '''	ns.Map(func(r rune) rune {
		if isWhitespace(r) {
			return ' '
		}
		return r
	})
	ns.Filter(func(r rune) bool {
		return !(r == 0 || r == unicode.ReplacementChar || isControlCharacter(r))
	})
''')],
  D('''	n := ns.FromString("a\\u0085\\x0bb")
	bert.NewBertNormalizer(true, false, false, false).Normalize(n)
	eq("text", n.Get(), "ab")'''),
  "a control character that is also white space (vertical tab, form feed, next line)",
  "control characters become spaces instead of being removed")

P("z01-extension-e", "Z01", [("normalizers/bertnormalizer/bertnormalizer.go", "		{0x2a700, 0x2b73f, 1},\n", "		{0x2a700, 0x2b734, 1},\n")],
  D('''	n := ns.FromString("\\U0002b739")
	bert.NewBertNormalizer(false, true, false, false).Normalize(n)
	eq("text", n.Get(), " \\U0002b739 ")'''),
  "an ideograph added to the end of a block after the table was first written",
  "an ideograph of extension C gets no spaces around it")

P("z02-title-case", "Z02", [("normalizers/lowercasenormalizer/lowercasenormalizer.go", '''	ns.ToLower()
''', '''	if strings.IndexFunc(ns.Get(), unicode.IsUpper) < 0 {
		// Nothing to do
		return nil
	}
	ns.ToLower()
'''), ("normalizers/lowercasenormalizer/lowercasenormalizer.go", '''	"github.com/nlpodyssey/gotokenizers/normalizers"
''', '''	"github.com/nlpodyssey/gotokenizers/normalizers"
	"strings"
	"unicode"
''')],
  D('''	n := ns.FromString("\\u01c5")
	lower.NewLowerCaseNormalizer().Normalize(n)
	eq("text", n.Get(), "\\u01c6")'''),
  "a text whose only letters to lower are title-case letters or circled letters",
  "the text is not lowercased")

P("z03-skip-empty", "Z03", [("normalizers/sequencenormalizer/sequencenormalizer.go", '''		err := normalizer.Normalize(ns)
''', '''		if ns.IsEmpty() && ns.OriginalLen() > 0 {
			// Nothing is left to normalize
			break
		}
		err := normalizer.Normalize(ns)
''')],
  D('''	n := ns.FromString("  ")
	err := seq.NewSequenceNormalizer([]norm.Normalizer{strip.NewStripNormalizer(true, true), failing{}}).Normalize(n)
	eq("error", err, "no")''', '''type failing struct{}

func (failing) Normalize(*ns.NormalizedString) error { return errors.New("no") }
'''),
  "a member that removes all of the text, and a later member that fails",
  "later members do not run")

P("m01-early-unknown", "M01", [("models/wordpiecemodel/wordpiecemodel.go", '''	if len([]rune(sequence)) > m.maxInputCharsPerWord {
		unkTokenID, unkTokenExists := m.vocab.GetID(m.unknownToken)
		if !unkTokenExists {
			return nil, ErrUnknownTokenOutOfVocabulary
		}
''', '''	unkTokenID, unkTokenExists := m.vocab.GetID(m.unknownToken)
	if !unkTokenExists && len(sequence) > 0 && sequence[0] >= 0x80 {
		return nil, ErrUnknownTokenOutOfVocabulary
	}
	if len([]rune(sequence)) > m.maxInputCharsPerWord {
		if !unkTokenExists {
			return nil, ErrUnknownTokenOutOfVocabulary
		}
''')],
  D('''	v := voc.NewVocabulary()
	v.AddTerm("é")
	_, err := wp.New(v, "[UNK]", "##", 100).Tokenize("é")
	eq("error", err, "<nil>")'''),
  "a vocabulary without the unknown token and a known word that starts with a multi-byte character",
  "a word that can be segmented gives an error")

P("m02-tie", "M02", [("models/bpemodel/wordmerge.go", '''	return (*h)[i].Pos < (*h)[j].Pos
''', '''	return uint8((*h)[i].Pos) < uint8((*h)[j].Pos)
''')],
  D('''	v := voc.NewVocabulary()
	for _, t := range []string{"a", "aa", "b"} {
		v.AddTerm(t)
	}
	mm := bpe.NewMergeMap()
	mm.Set(0, 0, bpe.MergeValue{Rank: 0, ID: 1})
	ts, _ := bpe.New(v, mm, 0, 0, "", "", "", false).Tokenize("b" + strings.Repeat("a", 400))
	var l []string
	for _, t := range ts {
		l = append(l, t.Value)
	}
	eq("tokens", strings.Join(l, "|"), "b" + strings.Repeat("|aa", 200))'''),
  "a word of more than 256 characters with a run of one character across the position 256",
  "merges of equal rank are not applied leftmost first")

P("m03-suffix-bytes", "M03", [("models/bpemodel/bpemodel.go", '''	runes := []rune(w)
	lastRuneIndex := len(runes) - 1

	for i, r := range runes {
''', '''	lastRuneIndex := len(w) - 1

	for i, r := range w {
''')],
  D('''	v := voc.NewVocabulary()
	for _, t := range []string{"a", "é</w>", "é"} {
		v.AddTerm(t)
	}
	ts, _ := bpe.New(v, bpe.NewMergeMap(), 0, 0, "", "", "</w>", false).Tokenize("aé")
	eq("tokens", ts, "[{0 a {0 1}} {1 é</w> {1 3}}]")'''),
  "an end-of-word suffix and a word whose last character has several bytes",
  "the last character is looked up without the suffix")

P("m05-fields", "M05", [("models/bpemodel/mergemap.go", '''		terms := strings.Split(line, " ")
''', '''		terms := strings.Fields(line)
''')],
  D('''	d, _ := os.MkdirTemp("", "demo")
	defer os.RemoveAll(d)
	v := voc.NewVocabulary()
	for _, t := range []string{"a", "b", "ab"} {
		v.AddTerm(t)
	}
	f := filepath.Join(d, "m")
	os.WriteFile(f, []byte("a  b\\n"), 0o644)
	_, err := bpe.MergeMapFromFile(f, v, 0)
	if err == nil {
		fmt.Println("a malformed line is accepted")
		os.Exit(1)
	}'''),
  "a line with two spaces or a tab between its terms",
  "a malformed line is accepted")

P("u01-tail", "U01", [("strutils/strutils.go", '''	mapping := make([]int, 0, len(sequence))
''', '''	mapping := make([]int, 0, len(sequence))
	ascii := true
	for i := 0; ascii && i+4 <= len(sequence); i += 4 {
		ascii = sequence[i]|sequence[i+1]|sequence[i+2]|sequence[i+3] < 0x80
	}
	if ascii && len(sequence) >= 4 {
		for i := range []byte(sequence) {
			mapping = append(mapping, i)
		}
		return &BytesToRuneOffsetConverter{mapping: mapping}
	}
''')],
  D('''	r := su.NewBytesToRuneOffsetConverter("abcdé").Convert(su.ByteOffsets{Start: 4, End: 6})
	eq("range", r, "{4 5}")'''),
  "a text of ASCII characters except for its last few bytes",
  "character offsets are byte offsets")

P("u02-c2", "U02", [("strutils/strutils.go", "	return int8(s[index]) >= -0x40\n", "	return s[index] < 0x80 || s[index] > 0xC2\n")],
  D('''	eq("boundary", su.IsRuneBoundary("a¡b", 1), true)'''),
  "a character between U+0080 and U+00BF",
  "the first byte of the character is not reported as a boundary")

P("y01-memo", "Y01", [(PTS, '''	for splitIndex, split := range p.splits {
		nsOffsets''', '''	var last struct {
		tok, rng strutils.ByteOffsets
		known    bool
	}
	for splitIndex, split := range p.splits {
		if split.NormalizedString.Len() != split.NormalizedString.OriginalLen() {
			last.known = false
		}
		nsOffsets'''), (PTS, '''			if ok {
				offsets''', '''			if last.known && last.tok == token.Offsets {
				offsets = strutils.ByteOffsets{
					Start: nsOffsets.Start + last.rng.Start,
					End:   nsOffsets.Start + last.rng.End,
				}
			} else if ok {
				last.tok, last.known = token.Offsets, true
				last.rng = strutils.ByteOffsets{Start: tokenOrigRange.Start(), End: tokenOrigRange.End()}
				offsets''')],
  D('''	p := pts.FromString("a É京 éa")
	n := bert.NewBertNormalizer(true, true, true, true)
	p.Normalize(n.Normalize)
	pws.New().PreTokenize(p)
	q := pts.FromString("Ⱥb ab")
	q.Normalize(n.Normalize)
	pws.New().PreTokenize(q)
	tk := func(n *ns.NormalizedString) ([]models.Token, error) {
		return []models.Token{{ID: 1, Value: "x", Offsets: su.ByteOffsets{Start: 0, End: n.Len()}}}, nil
	}
	q.Tokenize(tk)
	e, _ := q.IntoEncoding(-1, 0)
	eq("offsets", e.Offsets, "[{0 3} {4 6}]")
	r := pts.FromString("Ⱥb abc")
	r.Normalize(n.Normalize)
	pws.New().PreTokenize(r)
	r.Tokenize(func(n *ns.NormalizedString) ([]models.Token, error) {
		return []models.Token{{ID: 1, Value: "x", Offsets: su.ByteOffsets{Start: 0, End: 3}}}, nil
	})
	e, _ = r.IntoEncoding(-1, 0)
	eq("offsets", e.Offsets, "[{0 2} {4 7}]")'''),
  "a word whose lower case has another byte length, followed by a word whose first token has the same offsets",
  "a token's offsets are taken from another word")

P("y02-scratch", "Y02", [("models/bpemodel/wordcache.go", '''type WordCache struct {
	capacity int
}''', '''type WordCache struct {
	capacity int
	words    map[string]*Word
}'''), ("models/bpemodel/wordcache.go", '''		capacity: capacity,
	}''', '''		capacity: capacity,
		words:    make(map[string]*Word),
	}'''), ("models/bpemodel/wordcache.go", '''func (c *WordCache) Set(key string, values *Word) {
	// TODO: to be implemented...
''', '''func (c *WordCache) Set(key string, values *Word) {
	if len(c.words) < c.capacity {
		c.words[key] = values
	}
'''), ("models/bpemodel/wordcache.go", '''	// TODO: to be implemented...
	return nil
''', '''	return c.words[key]
'''), ("models/bpemodel/bpemodel.go", '''	word := NewWordWithCapacity(len(w))

''', '''	if m.scratch == nil || cap(*m.scratch) < len(w) {
		m.scratch = NewWordWithCapacity(len(w))
	}
	*m.scratch = (*m.scratch)[:0]
	word := m.scratch

'''), ("models/bpemodel/bpemodel.go", '''	unknownFusionEnabled bool
}
''', '''	unknownFusionEnabled bool
	// Buffer for building words.
	scratch *Word
}
''')],
  D('''	v := voc.NewVocabulary()
	for _, t := range []string{"a", "b"} {
		v.AddTerm(t)
	}
	m := bpe.New(v, bpe.NewMergeMap(), 10, 0, "", "", "", false)
	m.Tokenize("ab")
	m.Tokenize("ba")
	ts, _ := m.Tokenize("ab")
	eq("tokens", ts, "[{0 a {0 1}} {1 b {1 2}}]")'''),
  "a word cache, another word in between, then the first word again; the buffer and the cache are harmless alone",
  "a cached word is overwritten by a later one")

P("y02-captures", "Y02", [("splitpattern/regexp.go", '''type RegexpSplitPattern struct {
	r *regexp.Regexp
''', '''type RegexpSplitPattern struct {
	r    *regexp.Regexp
	last string
	memo []Capture
'''), ("splitpattern/regexp.go", '''	prev := 0
	splits := make([]Capture, 0, len(s))
''', '''	if sp.memo != nil && sp.last == s {
		return sp.memo, nil
	}

	prev := 0
	splits := make([]Capture, 0, len(s))
'''), ("splitpattern/regexp.go", '''	return splits, nil
''', '''	sp.last, sp.memo = s, splits
	return splits, nil
''')],
  D('''	p := sp.FromRegexp(regexp.MustCompile("a"))
	x, _ := p.FindMatches("ab")
	x[0].IsMatch = false
	y, _ := p.FindMatches("ab")
	eq("captures", y, "[{{0 1} true} {{1 2} false}]")'''),
  "the same text twice with the first result modified in between",
  "modifying a returned result changes later results")

P("y03-cache-map", "Y03", [("models/bpemodel/wordcache.go", '''type WordCache struct {
	capacity int
}''', '''type WordCache struct {
	capacity int
	words    map[string]*Word
}'''), ("models/bpemodel/wordcache.go", '''		capacity: capacity,
	}''', '''		capacity: capacity,
		words:    make(map[string]*Word),
	}'''), ("models/bpemodel/wordcache.go", '''func (c *WordCache) Set(key string, values *Word) {
	// TODO: to be implemented...
''', '''func (c *WordCache) Set(key string, values *Word) {
	if len(c.words) < c.capacity {
		c.words[key] = values
	}
'''), ("models/bpemodel/wordcache.go", '''	// TODO: to be implemented...
	return nil
''', '''	return c.words[key]
''')],
  D('''	v := voc.NewVocabulary()
	v.AddTerm("a")
	m := bpe.New(v, bpe.NewMergeMap(), 10, 0, "", "", "", false)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			m.Tokenize(strings.Repeat("a", i+1))
		}()
	}
	wg.Wait()
	eq("done", true, true)'''),
  "two goroutines tokenizing with the same model",
  "unsynchronised accesses to the cache", race=True)

P("y03-torn-memo", "Y03", [("models/bpemodel/wordcache.go", """type WordCache struct {
	capacity int
}""", """type WordCache struct {
	capacity int
	key      atomic.Value
	word     atomic.Value
}"""), ("models/bpemodel/wordcache.go", """// DefaultCacheCapacity""", """import "sync/atomic"

// DefaultCacheCapacity"""), ("models/bpemodel/wordcache.go", """func (c *WordCache) Set(key string, values *Word) {
	// TODO: to be implemented...
""", """func (c *WordCache) Set(key string, values *Word) {
	if c.capacity > 0 {
		c.word.Store(values)
		c.key.Store(key)
	}
"""), ("models/bpemodel/wordcache.go", """	// TODO: to be implemented...
	return nil
""", """	if k, ok := c.key.Load().(string); ok && k == key {
		return c.word.Load().(*Word)
	}
	return nil
"""), ("models/bpemodel/bpemodel.go", """	m.cache.Set(sequence, word)
	return tokens, nil
""", """	if word.Len() > 1 {
		m.cache.Set(sequence, word)
	}
	return tokens, nil
""")],
  D("""	v := voc.NewVocabulary()
	for _, t := range []string{"a", "b"} {
		v.AddTerm(t)
	}
	m := bpe.New(v, bpe.NewMergeMap(), 10, 0, "", "", "", false)
	var wg sync.WaitGroup
	bad := make(chan string, 100)
	stop := time.Now().Add(20 * time.Second)
	for i := 0; i < 16; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := []string{"aa", "bb"}[i%2]
			for time.Now().Before(stop) {
				ts, _ := m.Tokenize(w)
				if ts[0].Value != w[:1] {
					bad <- w + " gives " + ts[0].Value
					fmt.Println(w, "gives", ts[0].Value)
					os.Exit(1)
				}
			}
		}()
	}
	wg.Wait()
	eq("done", true, true)"""),
  "one goroutine storing a word between another one's reading of the key and of the word; every single access is atomic",
  "a word gets the tokens of another word")

P("n04-search", "N04", [(NS, '''	alignments := ns.alignments[r.Start():r.End()]
''', '''	alignments := ns.alignments[r.Start():r.End()]
	for len(alignments) > 1 && alignments[0].start == alignments[0].end {
		// Text without a source does not count
		alignments = alignments[1:]
	}
''')],
  D('''	n := ns.FromString(" ab")
	n.TrimLeft()
	n.Transform([]ns.RuneChange{{Rune: 'x', Change: 1}, {Rune: 'a', Change: 0}, {Rune: 'b', Change: 0}}, 0)
	r, ok := n.CoerceRangeToOriginal(ns.NewNormalizedRange(0, 2))
	eq("range", fmt.Sprint(r.Start(), r.End(), ok), "0 2 true")'''),
  "text inserted before everything else on a string whose first characters were removed",
  "the converted range does not start at the source start of its first byte")

P("n07-memo", "N07", [(NS, '''	originalShift int
}

// AlignmentRange''', '''	originalShift int
	// The last result of OriginalAlignments, and the text it is for.
	inverse     []AlignmentRange
	inverseText string
}

// AlignmentRange'''), (NS, '''func (ns *NormalizedString) OriginalAlignments() []AlignmentRange {
''', '''func (ns *NormalizedString) OriginalAlignments() []AlignmentRange {
	if ns.inverse == nil || ns.inverseText != ns.normalized {
		ns.inverse, ns.inverseText = ns.computeOriginalAlignments(), ns.normalized
	}
	return append([]AlignmentRange{}, ns.inverse...)
}

func (ns *NormalizedString) computeOriginalAlignments() []AlignmentRange {
''')],
  D('''	n := ns.FromString(" a")
	n.OriginalAlignments()
	n.TrimLeft()
	n.Prepend(" ")
	eq("inverse", n.OriginalAlignments(), "[{0 0} {0 2}]")'''),
  "computing the inverse alignment, editing the text to the same text by another way, computing it again",
  "the inverse alignment is that of before the edits")

P("s02-byte-rune", "S02", [("splitpattern/rune.go", '''	return sp.f.FindMatches(s)
''', '''	if sp.r > 0 && sp.r <= unicode.MaxLatin1 && strings.IndexByte(s, byte(sp.r)) < 0 && len(s) > 0 {
		// Not in there at all
		return []Capture{{Offsets: strutils.ByteOffsets{Start: 0, End: len(s)}, IsMatch: false}}, nil
	}
	return sp.f.FindMatches(s)
'''), ("splitpattern/rune.go", '''package splitpattern
''', '''package splitpattern

import (
	"github.com/nlpodyssey/gotokenizers/strutils"
	"strings"
	"unicode"
)
''')],
  D('''	cs, _ := sp.FromRune('é').FindMatches("aé")
	eq("captures", cs, "[{{0 1} false} {{1 3} true}]")'''),
  "a delimiter between U+0080 and U+00FF",
  "the delimiter is not found")

P("m04-bounded-skip", "M04", [("models/bpemodel/word.go", '''		if hasDropout && rand.Float64() < dropout {
''', '''		if hasDropout && len(skip) < 16 && rand.Float64() < dropout {
''')],
  D('''	v := voc.NewVocabulary()
	for _, t := range []string{"a", "aa"} {
		v.AddTerm(t)
	}
	mm := bpe.NewMergeMap()
	mm.Set(0, 0, bpe.MergeValue{Rank: 0, ID: 1})
	ts, _ := bpe.New(v, mm, 0, 1, "", "", "", false).Tokenize(strings.Repeat("a", 30))
	eq("tokens", len(ts), 30)'''),
  "a word with more than 16 possible merges and dropout probability 1",
  "merges are applied although every one of them is to be dropped")

P("m05-comment", "M05", [("models/bpemodel/mergemap.go", '''strings.HasPrefix(line, "#version")''', '''strings.HasPrefix(line, "#version") || strings.HasPrefix(line, "# ")''')],
  D('''	d, _ := os.MkdirTemp("", "demo")
	defer os.RemoveAll(d)
	v := voc.NewVocabulary()
	for _, t := range []string{"#", "b", "#b"} {
		v.AddTerm(t)
	}
	f := filepath.Join(d, "m")
	os.WriteFile(f, []byte("# b\\n"), 0o644)
	mm, err := bpe.MergeMapFromFile(f, v, 0)
	if err != nil {
		panic(err)
	}
	eq("entries", len(*mm), 1)'''),
  "a merge whose left term is the number sign",
  "the merge is taken for a comment")

P("m06-empty-term", "M06", [("vocabulary/vocabulary.go", '''	if _, ok := v.termToID[term]; ok {
''', '''	if v.termToID[term] > 0 || v.idToTerm[0] == term {
''')],
  D('''	v := voc.NewVocabulary()
	v.AddTerm("")
	_, ok := v.GetID("")
	eq("known", ok, true)'''),
  "the empty term added to an empty vocabulary",
  "the term is not added")
