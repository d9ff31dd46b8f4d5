exec(open("/verif/tools/plants/b.py").read())
PLANTS = []
RX2 = "splitpattern/regexp2.go"
META = "pretokenizers/metaspacepretokenizer/metaspacepretokenizer.go"
BERTN = "normalizers/bertnormalizer/bertnormalizer.go"
BERTP = "pretokenizers/bertpretokenizer/bertpretokenizer.go"
RDEL = "pretokenizers/runedelimiterpretokenizer/runedelimiterpretokenizer.go"
BPE = "models/bpemodel/bpemodel.go"
WRD = "models/bpemodel/word.go"
VOC = "vocabulary/vocabulary.go"
MMAP = "models/bpemodel/mergemap.go"

P("n02-same-bytes", "N02", [(NS, "	newAlignments := make([]AlignmentRange, 0, len(ns.alignments)", """	if len(dest) == len([]rune(replacedNormalizedString)) && len(alignments) == len(replacedNormalizedString) {
		// As many characters and bytes as before: nothing moves
		copy(alignments, ns.alignments[normalizedRange.start:normalizedRange.end])
	}

	newAlignments := make([]AlignmentRange, 0, len(ns.alignments)""")],
  D("""	n := ns.FromString("aé")
	n.Map(func(r rune) rune {
		if r == 'a' {
			return 'é'
		}
		return 'a'
	})
	r, _ := n.CoerceRangeToOriginal(ns.NewNormalizedRange(0, 2))
	eq("source", fmt.Sprint(r.Start(), r.End()), "0 1")"""),
  "a mapping that makes one character longer and another one as much shorter", "bytes are aligned with the wrong character")

P("t03-first-split", "T03", [(META, "func(_ int, ns", "func(index int, ns"), (META, "if m.prefixSpaceEnabled && !strings", "if m.prefixSpaceEnabled && index == 0 && !strings")],
  D("""	p := pts.FromString("a b")
	p.Split(func(_ int, n *ns.NormalizedString) ([]pts.Split, error) {
		l, err := n.Split(sp.FromRune(' '), ns.SplitDelimiterRemoved)
		return pts.SplitsFromNormalizedStrings(l), err
	})
	pmeta.New('_', true).PreTokenize(p)
	eq("second", p.Splits()[1].NormalizedString.Get(), "_b")"""),
  "a text that was split before", "only the first split gets the prefix")

P("t03-whole", "T03", [(META, """			nss, err := ns.Split(splittingPattern""", """			if !strings.Contains(ns.Get(), m.strReplacement) {
				return pretokenizedstring.SplitsFromNormalizedStrings([]*normalizedstring.NormalizedString{ns}), nil
			}
			nss, err := ns.Split(splittingPattern""")],
  D("""	n := ns.FromString("xab")
	n.Filter(func(r rune) bool { return r != 'x' })
	p := pts.FromNormalizedString(n)
	pmeta.New('_', false).PreTokenize(p)
	eq("offsets", p.GetOriginalByteSplits()[0].Offsets, "{1 3}")"""),
  "a text without spaces that was trimmed, no prefix", "the piece claims the removed characters")

P("t04-whole", "T04", [(RDEL, "			nss, err := ns.Split(", """			if !strings.ContainsRune(ns.Get(), r.delimiter) {
				return pretokenizedstring.SplitsFromNormalizedStrings([]*normalizedstring.NormalizedString{ns}), nil
			}
			nss, err := ns.Split("""), (RDEL, 'import (\n', 'import (\n	"strings"\n\n')],
  D("""	n := ns.FromString("xab")
	n.Filter(func(r rune) bool { return r != 'x' })
	p := pts.FromNormalizedString(n)
	pdelim.New('_').PreTokenize(p)
	eq("offsets", p.GetOriginalByteSplits()[0].Offsets, "{1 3}")"""),
  "a text without the delimiter that was trimmed", "the piece claims the removed characters")

P("p01-nil-tokens", "P01", [(PTS, "		p.splits[i].Tokens = &tokens\n", "		if tokens != nil {\n			p.splits[i].Tokens = &tokens\n		}\n")],
  D("""	p := pts.FromString("a")
	calls := 0
	f := func(n *ns.NormalizedString) ([]models.Token, error) { calls++; return nil, nil }
	p.Tokenize(f)
	p.Tokenize(f)
	eq("calls", calls, 1)"""),
  "a tokenizer that returns no tokens (nil)", "the split is not counted as tokenized")

P("n06-shared-alignments", "N06", [(NS, """	alignments := make([]AlignmentRange, normalizedRange.Len())

	for i, alignment""", """	if nShift == 0 {
		return New(original, normalized, ns.alignments[normalizedRange.start:normalizedRange.end], ns.originalShift), true
	}

	alignments := make([]AlignmentRange, normalizedRange.Len())

	for i, alignment"""), (NS, "	newAlignments := make([]AlignmentRange, 0, len(ns.alignments)-normalizedRange.Len()+len(alignments))\n	newAlignments = append(newAlignments, ns.alignments[:normalizedRange.start]...)\n", """	newAlignments := ns.alignments[:normalizedRange.start:normalizedRange.start]
	if len(alignments) == normalizedRange.Len() {
		newAlignments = ns.alignments[:normalizedRange.start]
	}
""")],
  D("""	n := ns.FromString("abc")
	s, _ := n.Slice(ns.NewNormalizedRange(0, 2))
	n.TransformRange(ns.NewNormalizedRange(0, 2), []ns.RuneChange{{Rune: 'x', Change: 1}, {Rune: 'y', Change: -1}}, 0)
	r, _ := s.CoerceRangeToOriginal(ns.NewNormalizedRange(1, 2))
	eq("slice", fmt.Sprint(r.Start(), r.End()), "1 2")"""),
  "a slice from the beginning, then an edit of the whole that moves characters without changing the length", "the slice's sources change with the whole's")

P("t01-uint16-key", "T01", [(BERTP, "		return unicode.In(r, unicode.Punct)", "		if v := uint16(r); v < 128 {\n			r = rune(v)\n		}\n		return unicode.In(r, unicode.Punct)")],
  D("""	p := pts.FromString("a\\U0001002Eb")
	pbert.New().PreTokenize(p)
	eq("pieces", len(p.Splits()), 1)"""),
  "a character beyond the BMP whose low 16 bits are those of an ASCII punctuation character", "it is split off as punctuation")

P("m02-queue-cap", "M02", [(WRD, "	skip := make([]WordMerge, 0, symbolsLen)\n", "	skip := make([]WordMerge, 0, symbolsLen)\n	seen := make(map[WordMerge]bool, symbolsLen)\n"),
  (WRD, "			heap.Push(&queue, WordMerge{MergeValue: m, Pos: index})\n", "			heap.Push(&queue, WordMerge{MergeValue: m, Pos: index})\n			seen[WordMerge{MergeValue: m, Pos: index}] = true\n"),
  (WRD, "			if m, ok := merges.Get(current.ID, nextSymbol.ID); ok {\n				heap.Push(&queue, WordMerge{MergeValue: m, Pos: top.Pos})", "			if m, ok := merges.Get(current.ID, nextSymbol.ID); ok && !seen[WordMerge{MergeValue: m, Pos: top.Pos}] {\n				seen[WordMerge{MergeValue: m, Pos: top.Pos}] = true\n				heap.Push(&queue, WordMerge{MergeValue: m, Pos: top.Pos})")],
  D("""	v := voc.NewVocabulary()
	for _, t := range []string{"a", "b"} {
		v.AddTerm(t)
	}
	m := bpe.NewMergeMap()
	m.Set(0, 1, bpe.MergeValue{Rank: 0, ID: 0})
	t, err := bpe.New(v, m, 10, 0, "", "", "", false).Tokenize("abb")
	eq("tokens", fmt.Sprint(len(t), err), "1 <nil>")"""),
  "a merge whose result is its own left part, applied twice at the same place", "the second merge is left out")

P("m03-unk-suffix", "M03", [(BPE, "		id, foundInVocab := m.vocab.GetID(s)\n		if foundInVocab {\n			if unk", """		id, foundInVocab := m.vocab.GetID(s)
		if foundInVocab && id == unkTokenID && m.hasUnknownToken() && m.unknownFusionEnabled {
			// The unknown token itself
			foundInVocab = false
		}
		if foundInVocab {
			if unk""")],
  D("""	v := voc.NewVocabulary()
	v.AddTerm("u")
	t, _ := bpe.New(v, bpe.NewMergeMap(), 10, 0, "u", "", "", true).Tokenize("ux")
	eq("tokens", len(t), 2)"""),
  "a text with the unknown token's own character next to an unknown one, with fusing", "they become one token")

P("m05-version-only", "M05", [(MMAP, 'if strings.HasPrefix(line, "#version") {', 'if strings.HasPrefix(line, "#version") && rank == 0 {')],
  D("""	v := voc.NewVocabulary()
	for _, t := range []string{"a", "b", "ab"} {
		v.AddTerm(t)
	}
	f, _ := os.CreateTemp("", "v")
	defer os.Remove(f.Name())
	f.WriteString("a b\\n#version: 1\\n")
	f.Close()
	_, err := bpe.MergeMapFromFile(f.Name(), v, 0)
	eq("error", err, "<nil>")"""),
  "a version line after a merge", "the file is rejected")

P("z01-merge-same", "Z01", [(BERTN, "import (\n", "import (\n	\"strings\"\n	\"unicode/utf8\"\n"), (BERTN, "	for _, r := range ns.Get() {\n		if unicode.In(r, chineseCharacters) {", """	s := ns.Get()
	if !strings.ContainsAny(s, "\\xe4\\xe5\\xe6\\xe7\\xe8\\xe9") && len(s) == utf8.RuneCountInString(s)*3 {
		return
	}
	for _, r := range s {
		if unicode.In(r, chineseCharacters) {""")],
  D("""	n := ns.FromString("㐀豈")
	bert.NewBertNormalizer(false, true, false, false).Normalize(n)
	eq("text", n.Get(), " 㐀  豈 ")"""),
  "a text of rare Chinese characters of three bytes only", "no spaces are put around them")
