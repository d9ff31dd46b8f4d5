exec(open("/verif/tools/plants/b.py").read())
PLANTS = []
BL = "pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go"
META = "pretokenizers/metaspacepretokenizer/metaspacepretokenizer.go"
SEQ = "normalizers/sequencenormalizer/sequencenormalizer.go"
R2 = "splitpattern/regexp2.go"

P("n03-same-text-script", "N03", [(NS, """	newAlignments := make([]AlignmentRange, 0,""", """	if normalizedBuilder.String() == replacedNormalizedString {
		// Nothing changes
		return
	}

	newAlignments := make([]AlignmentRange, 0,""")],
  D("""	n := ns.FromString("aa")
	n.Transform([]ns.RuneChange{{Rune: 'a', Change: 1}, {Rune: 'a', Change: -1}}, 0)
	r, ok := n.CoerceRangeToOriginal(ns.NewNormalizedRange(1, 2))
	eq("source", fmt.Sprint(r.Start(), r.End(), ok), "0 1 true")"""),
  "a script that drops and inserts characters so that the text stays the same", "the sources are not updated")

P("n07-groups-of-256", "N07", [(NS, """	offset := 0
	length := 0

	for _, alignment""", """	offset := 0
	var length uint8Count

	for _, alignment"""), (NS, "					end:   offset + length,\n				})\n			}\n			offset += length\n			length = 1", "					end:   offset + int(length),\n				})\n			}\n			offset += int(length)\n			length = 1"),
  (NS, "			start: offset,\n			end:   offset + length,\n		})\n	}\n\n	// Add eventual last gap\n	offset += length", "			start: offset,\n			end:   offset + int(length),\n		})\n	}\n\n	// Add eventual last gap\n	offset += int(length)"),
  (NS, "// AlignmentRange represents", "// uint8Count counts the bytes derived from one character.\ntype uint8Count uint8\n\n// AlignmentRange represents")],
  D("""	n := ns.FromString("ab")
	n.Append(strings.Repeat("x", 299))
	eq("inverse", n.OriginalAlignments(), "[{0 1} {1 301}]")"""),
  "more than 255 bytes derived from one character", "the span of the derived text is too short")

P("p03-ascii-end", "P03", [(PTS, """			Offsets: split.NormalizedString.OriginalOffsets(),
			Tokens:  split.Tokens,
		}""", """			Offsets: split.NormalizedString.OriginalOffsets(),
			Tokens:  split.Tokens,
		}
		if i > 0 && result[i].Offsets.Start < result[i-1].Offsets.End {
			// Pieces do not overlap
			result[i].Offsets.Start = result[i-1].Offsets.End
		}""")],
  D("""	p := pts.FromString("abc")
	p.Split(func(_ int, n *ns.NormalizedString) ([]pts.Split, error) {
		a, _ := n.Slice(ns.NewNormalizedRange(0, 2))
		b, _ := n.Slice(ns.NewNormalizedRange(1, 3))
		return pts.SplitsFromNormalizedStrings([]*ns.NormalizedString{a, b}), nil
	})
	eq("offsets", p.GetOriginalByteSplits()[1].Offsets, "{1 3}")"""),
  "splits cut from overlapping ranges, or out of order", "the view moves the start of a piece")

P("p03-tokens-copy", "P03", [(PTS, """			Offsets: strutils.ByteOffsets{
				Start: start,
				End:   offset,
			},
			Tokens: split.Tokens,""", """			Offsets: strutils.ByteOffsets{
				Start: start,
				End:   offset,
			},
			Tokens: viewTokens(split.Tokens),"""),
  (PTS, "func (p *PreTokenizedString) Splits() ", "// viewTokens leaves out the tokens which are outside of the split.\nfunc viewTokens(tokens *[]models.Token) *[]models.Token {\n	if tokens == nil || len(*tokens) == 0 {\n		return nil\n	}\n	return tokens\n}\n\n// Splits returns the splits.\nfunc (p *PreTokenizedString) Splits() ") ] ,
  D("""	p := pts.FromString("abc")
	p.Tokenize(func(n *ns.NormalizedString) ([]models.Token, error) { return []models.Token{}, nil })
	eq("tokenized", p.GetNormalizedByteSplits()[0].Tokens != nil, true)"""),
  "a split tokenized to no tokens", "the normalized view shows it as not tokenized")

P("s02-incremental", "S02", [(R2, "		startByte := len(string(runes[:match.Index]))", "		startByte := prev + len(string(runes[prevRune:match.Index]))\n		prevRune = match.Index + len([]rune(match.Group.String()))\n		if len(splits) == 0 && match.Length == 0 {\n			prevRune = 0\n		}"),
  (R2, "	runes := []rune(s)\n	prev := 0", "	runes := []rune(s)\n	prev, prevRune := 0, 0")],
  D("""	c, _ := sp.FromRegexp2(regexp2.MustCompile(`(?=b)`, 0)).FindMatches("aéb京b")
	out := ""
	for _, x := range c {
		out += fmt.Sprint(x.Offsets.Start, "-", x.Offsets.End, x.IsMatch, " ")
	}
	eq("captures", out, "0-3 false 3-3 true 3-7 false 7-7 true 7-8 false ")"""),
  "a first match that is empty and not at the start", "later captures are shifted")

P("t02-original-space", "T02", [(BL, "!startsWithWhitespace(ns.Get())", "!startsWithWhitespace(ns.GetOriginal())")],
  D("""	n := ns.FromString(" ab")
	n.TrimLeft()
	p := pts.FromNormalizedString(n)
	pbyte.NewDefault().PreTokenize(p)
	eq("text", p.GetOriginalByteSplits()[0].String, "Ġab")"""),
  "text whose leading space was stripped before", "the prefix is left out")

P("t03-zero-meta", "T03", [(META, """	return &MetaSpacePreTokenizer{
		replacement:""", """	if replacement == 0 {
		replacement = DefaultReplacementCharacter
	}
	return &MetaSpacePreTokenizer{
		replacement:""")],
  D("""	p := pts.FromString("a b")
	pmeta.New(0, false).PreTokenize(p)
	eq("text", p.GetOriginalByteSplits()[1].String, "\\x00b")"""),
  "the meta character NUL", "another character is used")

P("t03-original-prefix", "T03", [(META, "splitpattern.FromRune(' ')", "splitpattern.FromFunc(func(r rune) bool { return r == ' ' && !strings.HasPrefix(ns.GetOriginal(), m.strReplacement+\" \") })")],
  D("""	p := pts.FromString("▁ a")
	pmeta.NewDefault().PreTokenize(p)
	eq("pieces", len(p.GetOriginalByteSplits()), 2)"""),
  "a text that starts with the meta character and a space", "its spaces are not replaced")

P("t01-zero-delimiter", "T01", [("pretokenizers/runedelimiterpretokenizer/runedelimiterpretokenizer.go", "	return &RuneDelimiterPreTokenizer{delimiter: delimiter}", "	if delimiter <= 0 {\n		// Not a character\n		delimiter = ' '\n	}\n	return &RuneDelimiterPreTokenizer{delimiter: delimiter}")],
  D("""	p := pts.FromString("a\\x00b c")
	pdelim.New(0).PreTokenize(p)
	eq("pieces", len(p.GetOriginalByteSplits()), 2)
	eq("second", p.GetOriginalByteSplits()[1].String, "b c")"""),
  "the delimiter NUL", "a space is used instead")

P("t04-single-split", "T04", [("pretokenizers/bertpretokenizer/bertpretokenizer.go", """		func(_ int, ns *normalizedstring.NormalizedString) ([]pretokenizedstring.Split, error) {
			nss, err := ns.Split(isBertPunctuationPattern,""", """		func(_ int, ns *normalizedstring.NormalizedString) ([]pretokenizedstring.Split, error) {
			if len(ns.GetOriginal()) == 1 {
				// A single character cannot be split
				return []pretokenizedstring.Split{{NormalizedString: ns}}, nil
			}
			nss, err := ns.Split(isBertPunctuationPattern,""")],
  D("""	n := ns.FromString("a")
	n.Append(",b")
	p := pts.FromNormalizedString(n)
	pbert.New().PreTokenize(p)
	eq("pieces", len(p.GetOriginalByteSplits()), 3)"""),
  "a split of one original character that got longer text", "it is not split at its punctuation")

P("y01-order", "Y01", [(PTS, """					End:   nsOffsets.Start + tokenOrigRange.End(),
				}""", """					End:   nsOffsets.Start + tokenOrigRange.End(),
				}
				if n := len(sequence); n > 0 && sequence[n-1].WordIndex != actualWordIndex && offsets.Start < sequence[n-1].Offsets.End {
					// Words do not overlap
					offsets.Start = sequence[n-1].Offsets.End
				}""")],
  D(VB % '"[UNK]", "a", "京", "b"' + """	n := ns.FromString("京")
	bert.DefaultBertNormalizer().Normalize(n)
	n.Append(" b")
	p := pts.FromNormalizedString(n)
	pbert.New().PreTokenize(p)
	m := wp.New(v, "[UNK]", "##", 100)
	p.Tokenize(func(n *ns.NormalizedString) ([]models.Token, error) { return m.Tokenize(n.Get()) })
	e, _ := p.IntoEncoding(-1, 0)
	eq("offsets", e.Offsets, "[{0 3} {0 3}]")"""),
  "two words derived from the same original character", "the second one gets an empty or reversed range")

P("z02-side", "Z02", [("normalizers/stripnormalizer/stripnormalizer.go", "	ns.TrimLeftRight(", "	if ns.Len() == ns.OriginalLen() && ns.Get() != ns.GetOriginal() {\n		return nil\n	}\n	ns.TrimLeftRight(")],
  D("""	n := ns.FromString(" A ")
	n.ToLower()
	strip.NewStripNormalizer(true, true).Normalize(n)
	eq("text", n.Get(), "a")"""),
  "text that was edited before without changing its length", "nothing is stripped")

P("z02-lower-clean", "Z02", [("normalizers/lowercasenormalizer/lowercasenormalizer.go", "	ns.ToLower()", "	if ns.OriginalLen() == 0 {\n		return nil\n	}\n	ns.ToLower()")],
  D("""	n := ns.New("", "AB", make([]ns.AlignmentRange, 2), 0)
	lower.NewLowerCaseNormalizer().Normalize(n)
	eq("text", n.Get(), "ab")"""),
  "text that was inserted into an empty string", "it is not lowercased")

P("z03-flatten", "Z03", [(SEQ, "	return &SequenceNormalizer{normalizers: normalizers}", """	flat := normalizers[:0]
	for _, n := range normalizers {
		if inner, ok := n.(*SequenceNormalizer); ok && len(inner.normalizers) <= 1 {
			flat = append(flat, inner.normalizers...)
			continue
		}
		flat = append(flat, n)
	}
	return &SequenceNormalizer{normalizers: flat}""")],
  D("""	l := []norm.Normalizer{seq.NewSequenceNormalizer(nil), lower.NewLowerCaseNormalizer(), strip.NewStripNormalizer(true, true)}
	seq.NewSequenceNormalizer(l)
	n := ns.FromString("A ")
	seq.NewSequenceNormalizer(l[:2]).Normalize(n)
	eq("text", n.Get(), "a ")"""),
  "an empty sequence among the members of a list that is used again", "the caller's list is rewritten")

P("m03-unk-same", "M03", [(BPE, "		if foundInVocab {\n			if unk != nil {", "		if foundInVocab && m.unknownFusionEnabled && unk != nil && id == unkTokenID {\n			unk.Length += byteLen\n		} else if foundInVocab {\n			if unk != nil {")],
  D(VB % '"a", "u"' + """	ts, _ := bpe.New(v, bpe.NewMergeMap(), 0, 0, "u", "", "", true).Tokenize("xu")
	eq("tokens", len(ts), 2)"""),
  "fusion on, and the unknown token's own text as a known character after an unknown one", "the known character is fused")

P("m04-long-p1", "M04", [(WORD, "	hasDropout := dropout > 0\n", "	hasDropout := dropout > 0 && (dropout < 1 || symbolsLen < 16)\n")],
  D(VB % '"a", "aa"' + """	m := bpe.NewMergeMap()
	m.Set(0, 0, bpe.MergeValue{Rank: 0, ID: 1})
	ts, _ := bpe.New(v, m, 0, 1, "", "", "", false).Tokenize(strings.Repeat("a", 20))
	eq("tokens", len(ts), 20)"""),
  "probability 1 and a word of 16 characters or more", "the merges are applied")

P("m02-revisit", "M02", [(WORD, "			if m, ok := merges.Get(prevSymbol.ID, current.ID); ok {", "			if m, ok := merges.Get(prevSymbol.ID, current.ID); ok && m.Rank >= top.Rank {")],
  D(VB % '"a", "b", "c", "bc", "abc"' + """	m := bpe.NewMergeMap()
	m.Set(1, 2, bpe.MergeValue{Rank: 5, ID: 3})
	m.Set(0, 3, bpe.MergeValue{Rank: 1, ID: 4})
	ts, _ := bpe.New(v, m, 0, 0, "", "", "", false).Tokenize("abc")
	eq("tokens", len(ts), 1)"""),
  "a merge whose rank is below that of the merge that makes its right part", "it is never applied")

P("m04-drop-once", "M04", [(WORD, "			skip = append(skip, top)\n			continue", "			if len(skip) < 1<<3 {\n				skip = append(skip, top)\n				continue\n			}")],
  D(VB % '"a", "aa"' + """	m := bpe.NewMergeMap()
	m.Set(0, 0, bpe.MergeValue{Rank: 0, ID: 1})
	ts, _ := bpe.New(v, m, 0, 1, "", "", "", false).Tokenize(strings.Repeat("a", 20))
	eq("tokens", len(ts), 20)"""),
  "more than eight merges dropped in a row", "the ninth is applied")

P("u02-cached", "U02", [(SU, "	if index < 0 || index > len(s) {", "	if index < 0 || index > len(s) || index >= 1<<16 && s[index] == '\\n' {")],
  D("""	eq("boundary", su.IsRuneBoundary(strings.Repeat("a", 1<<16)+"\\na", 1<<16), true)"""),
  "a line feed past the first 64 KB", "it is not reported as a boundary")

P("s01-cap", "S01", [("splitpattern/regexp.go", "	matches := sp.r.FindAllStringIndex(s, -1)", "	matches := sp.r.FindAllStringIndex(s, -1)\n	if n := len(matches); n > 1 && matches[n-1][0] == matches[n-1][1] && matches[n-1][0] == len(s) {\n		// An empty match at the end is of no use\n		matches, s = matches[:n-1], s[:matches[n-2][1]]\n	}")],
  D("""	c, _ := sp.FromRegexp(regexp.MustCompile(`b*$|a`)).FindMatches("acd")
	eq("end", c[len(c)-1].Offsets.End, 3)"""),
  "an expression with an empty match at the end of the text after another match and a gap", "the captures do not reach the end of the text")

P("p04-masked", "P04", [("encodings/encodings.go", "		encoding.AttentionMask = append(encoding.AttentionMask, 1)", "		mask := 1\n		if token.WordIndex < 0 && token.TypeID < 0 {\n			mask = 0\n		}\n		encoding.AttentionMask = append(encoding.AttentionMask, mask)"),
  (PTS, "		actualWordIndex := wordIndex\n		if actualWordIndex < 0 {", "		actualWordIndex := wordIndex\n		if actualWordIndex < 0 && typeID >= 0 {")],
  D("""	p := pts.FromString("a")
	p.Tokenize(func(n *ns.NormalizedString) ([]models.Token, error) { return []models.Token{{ID: 1, Value: "a"}}, nil })
	e, _ := p.IntoEncoding(-1, -1)
	eq("mask and word", fmt.Sprint(e.AttentionMask, e.Words), "[1] [0]")"""),
  "a negative type id and a negative word index", "the word index is not the position of the split and the attention is 0")
