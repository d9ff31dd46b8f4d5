import os
exec(open("/verif/tools/plants/b.py").read())
PLANTS = []

P("n01-error-rune", "N01", [(NS, """	transforms := make([]RuneChange, 0, ns.Len())
	for _, r := range ns.normalized {
		transforms = append(transforms, RuneChange{
			Rune:   mapFunc(r),
			Change: 0,
		})
	}
	ns.Transform(transforms, 0)""", """	transforms := make([]RuneChange, 0, ns.Len())
	for _, r := range ns.normalized {
		mapped := r
		if r != unicode.ReplacementChar {
			// Undecodable characters have no mapping
			mapped = mapFunc(r)
		}
		transforms = append(transforms, RuneChange{
			Rune:   mapped,
			Change: 0,
		})
	}
	ns.Transform(transforms, 0)""")],
  D("""	n := ns.FromString("a\\uFFFDb")
	n.Map(func(r rune) rune { return 'x' })
	eq("text", n.Get(), "xxx")"""),
  "a text with a literal U+FFFD", "U+FFFD is never handed to the mapping function")

P("n01-map-chunk", "N01", [(NS, """	for _, r := range ns.normalized {
		transforms = append(transforms, RuneChange{
			Rune:   mapFunc(r),
			Change: 0,
		})
	}""", """	const chunk = 1 << 15
	for i := 0; i < len(ns.normalized); i += chunk {
		// Map the text chunk by chunk
		end := i + chunk
		if end > len(ns.normalized) {
			end = len(ns.normalized)
		}
		for _, r := range ns.normalized[i:end] {
			transforms = append(transforms, RuneChange{
				Rune:   mapFunc(r),
				Change: 0,
			})
		}
	}""")],
  D("""	n := ns.FromString(strings.Repeat("a", 32767) + "éa")
	n.Map(func(r rune) rune {
		if r == 'é' {
			return 'e'
		}
		return r
	})
	eq("text", n.Get() == strings.Repeat("a", 32767)+"ea", true)"""),
  "a text over 32768 bytes with a wide character across the chunk boundary", "the character across the boundary is torn into replacement characters")

P("n03-repeat-drop", "N03", [(NS, """		if runeChange.Change <= -1 {
			totalBytesToRemove = len(string(replacedNormalizedRunes[:-runeChange.Change]))""", """		if runeChange.Change <= -1 {
			totalBytesToRemove = len(string(replacedNormalizedRunes[:-runeChange.Change]))
			if first := replacedNormalizedRunes[0]; -runeChange.Change > 2 && first == replacedNormalizedRunes[-runeChange.Change-1] {
				// A run of the same character
				totalBytesToRemove = -runeChange.Change * len(string(first))
			}""")],
  D("""	n := ns.FromString("a(é(b")
	n.Filter(func(r rune) bool { return r == 'a' || r == 'b' })
	r, ok := n.CoerceRangeToOriginal(ns.NewNormalizedRange(1, 2))
	eq("text", n.Get(), "ab")
	eq("source", fmt.Sprint(r.Start(), r.End(), ok), "5 6 true")"""),
  "three or more characters dropped in a row of which the first and the last are the same and an inner one has another width", "the characters after the dropped ones are aligned to the wrong text")

P("n03-neg-int8", "N03", [(NS, """			replacedNormalizedRunes = replacedNormalizedRunes[-runeChange.Change:]
		}""", """			replacedNormalizedRunes = replacedNormalizedRunes[int(uint16(-runeChange.Change)):]
		}""")],
  D("""	n := ns.FromString("a" + strings.Repeat("-", 65536) + "éb")
	n.Filter(func(r rune) bool { return r != '-' })
	eq("text", n.Get(), "aéb")
	r, ok := n.CoerceRangeToOriginal(ns.NewNormalizedRange(1, 3))
	eq("source", fmt.Sprint(r.Start(), r.End(), ok), "65537 65539 true")
	r, ok = n.CoerceRangeToOriginal(ns.NewNormalizedRange(3, 4))
	eq("source", fmt.Sprint(r.Start(), r.End(), ok), "65539 65540 true")"""),
  "65536 or more characters dropped at one place, characters of different widths after them", "the sizes of the replaced characters are taken from the wrong characters")

P("n04-last-run", "N04", [(NS, """		if alignment.end > r.End() {
			break
		}
""", """		if alignment.end > r.End() {
			break
		}
		if end != -1 && start != -1 && i-start >= 1<<15 && alignment == ns.alignments[end-1] {
			continue // same character as before
		}
""")],
  D("""	n := ns.FromString(strings.Repeat("a", 32768) + "éb")
	r, ok := n.CoerceRangeToNormalized(ns.NewOriginalRange(0, 32770))
	eq("range", fmt.Sprint(r.Start(), r.End(), ok), "0 32770 true")"""),
  "a range of more than 32768 bytes ending after a wide character", "the range ends inside the last character")

P("n05-slice-error-rune", "N05", [("strutils/strutils.go", """	// This is bit magic equivalent to: s[index] < 128 || s[index] >= 192
	return int8(s[index]) >= -0x40""", """	if index+2 < len(s) && s[index:index+3] == "\\xef\\xbf\\xbd" {
		// An undecodable character
		return false
	}
	// This is bit magic equivalent to: s[index] < 128 || s[index] >= 192
	return int8(s[index]) >= -0x40""")],
  D("""	n := ns.FromString("a\\uFFFDb")
	_, ok := n.Slice(ns.NewNormalizedRange(1, 4))
	eq("sliced", ok, true)"""),
  "a slice that starts or ends at a literal U+FFFD", "the slice is refused")

P("n05-shift-16", "N05", [(NS, """	originalShift := ns.originalShift + originalRange.start

	return""", """	originalShift := ns.originalShift + originalRange.start
	if originalShift > 1<<16 && ns.originalShift > 0 {
		originalShift = ns.originalShift + normalizedRange.start
	}

	return""")],
  D("""	n := ns.FromString("ab" + strings.Repeat("x", 65536) + "yz")
	s, _ := n.Slice(ns.NewOriginalRange(1, n.OriginalLen()))
	s.Filter(func(r rune) bool { return r != 'b' })
	u, ok := s.Slice(ns.NewNormalizedRange(65536, 65538))
	eq("text", u.Get(), "yz")
	eq("ok", ok, true)
	eq("offsets", fmt.Sprint(u.OriginalOffsets()), "{65538 65540}")"""),
  "a slice of an edited slice more than 65536 bytes into the root text", "the reported offsets are off by the number of removed characters")

P("n06-spare-capacity", "N06", [(NS, """	alignments := make([]AlignmentRange, normalizedRange.Len())

	for i, alignment""", """	alignments := ns.alignments[normalizedRange.start:normalizedRange.end]
	if nShift != 0 || len(ns.alignments) != normalizedRange.Len() {
		alignments = make([]AlignmentRange, normalizedRange.Len())
	}

	for i, alignment"""), (NS, """	newAlignments := make([]AlignmentRange, 0, len(ns.alignments)-normalizedRange.Len()+len(alignments))
	newAlignments = append(newAlignments, ns.alignments[:normalizedRange.start]...)
	newAlignments = append(newAlignments, alignments...)
	newAlignments = append(newAlignments, ns.alignments[normalizedRange.end:]...)
	ns.alignments = newAlignments
""", """	if normalizedRange.start > 0 && normalizedRange.Len() == len(alignments) {
		// Same size as before: no need to move anything
		copy(ns.alignments[normalizedRange.start:], alignments)
	} else {
		newAlignments := make([]AlignmentRange, 0, len(ns.alignments)-normalizedRange.Len()+len(alignments))
		newAlignments = append(newAlignments, ns.alignments[:normalizedRange.start]...)
		newAlignments = append(newAlignments, alignments...)
		newAlignments = append(newAlignments, ns.alignments[normalizedRange.end:]...)
		ns.alignments = newAlignments
	}
""")],
  D("""	n := ns.FromString("abcd")
	s, _ := n.Slice(ns.NewNormalizedRange(0, 4))
	n.TransformRange(ns.NewNormalizedRange(1, 4), []ns.RuneChange{{Rune: 'x', Change: 1}, {Rune: 'y', Change: -1}, {Rune: 'z', Change: 0}}, 0)
	r, ok := s.CoerceRangeToOriginal(ns.NewNormalizedRange(2, 3))
	eq("source", fmt.Sprint(r.Start(), r.End(), ok), "2 3 true")"""),
  "a slice of the whole string, then a same-size edit of an inner range of one of the two", "the alignments of the other one change too")

P("n06-piece-tail", "N06", [(NS, """	alignments := make([]AlignmentRange, normalizedRange.Len())

	for i, alignment := range ns.alignments[normalizedRange.start:normalizedRange.end] {
		alignments[i] = AlignmentRange{
			start: alignment.start - nShift,
			end:   alignment.end - nShift,
		}
	}
""", """	var alignments []AlignmentRange
	if nShift == 0 {
		// Nothing to shift
		alignments = ns.alignments[normalizedRange.start:normalizedRange.end]
	} else {
		alignments = make([]AlignmentRange, normalizedRange.Len())
		for i, alignment := range ns.alignments[normalizedRange.start:normalizedRange.end] {
			alignments[i] = AlignmentRange{
				start: alignment.start - nShift,
				end:   alignment.end - nShift,
			}
		}
	}
"""), (NS, """	newAlignments := make([]AlignmentRange, 0, len(ns.alignments)-normalizedRange.Len()+len(alignments))
	newAlignments = append(newAlignments, ns.alignments[:normalizedRange.start]...)
	newAlignments = append(newAlignments, alignments...)
	newAlignments = append(newAlignments, ns.alignments[normalizedRange.end:]...)
	ns.alignments = newAlignments
""", """	if normalizedRange.end == len(ns.alignments) {
		// An edit of the end
		ns.alignments = append(ns.alignments[:normalizedRange.start], alignments...)
	} else {
		newAlignments := make([]AlignmentRange, 0, len(ns.alignments)-normalizedRange.Len()+len(alignments))
		newAlignments = append(newAlignments, ns.alignments[:normalizedRange.start]...)
		newAlignments = append(newAlignments, alignments...)
		newAlignments = append(newAlignments, ns.alignments[normalizedRange.end:]...)
		ns.alignments = newAlignments
	}
""")],
  D("""	n := ns.FromString("abcd")
	s, _ := n.Slice(ns.NewNormalizedRange(0, 2))
	s.Append("xy")
	r, ok := n.CoerceRangeToOriginal(ns.NewNormalizedRange(2, 3))
	eq("source", fmt.Sprint(r.Start(), r.End(), ok), "2 3 true")"""),
  "a slice from the start of a string, then text appended to the slice", "the alignments of the parent after the slice are overwritten")

P("n07-buffer", "N07", [(NS, "	originalShift int\n}", "	originalShift int\n	// Memory of the last original alignments, for reuse.\n	reverse []AlignmentRange\n}"),
  (NS, "	originalAlignments := make([]AlignmentRange, 0, len(ns.original))\n", "	if cap(ns.reverse) < len(ns.original) {\n		ns.reverse = make([]AlignmentRange, 0, len(ns.original))\n	}\n	originalAlignments := ns.reverse[:0]\n"),
  ],
  D("""	n := ns.FromString("abc")
	before := n.OriginalAlignments()
	kept := fmt.Sprint(before)
	n.Filter(func(r rune) bool { return r != 'a' })
	n.OriginalAlignments()
	eq("alignments handed out before", fmt.Sprint(before), kept)
	n.Filter(func(r rune) bool { return false })
	eq("alignments of a text without characters", fmt.Sprint(n.OriginalAlignments()), "[{0 0} {0 0} {0 0}]")"""),
  "alignments computed before an edit and again after it", "the new alignments are written over the ones handed out before; with all the text removed the old ones come back")

P("n08-many", "N08", [(NS, """		newLen := len(content)
		oldLen := capture.Offsets.End - capture.Offsets.Start
		offset += newLen - oldLen""", """		newLen := len(content)
		oldLen := capture.Offsets.End - capture.Offsets.Start
		offset = int(int16(offset + newLen - oldLen))""")],
  D("""	n := ns.FromString("-" + strings.Repeat("a", 40000) + "-" + "-")
	if err := n.Replace(sp.FromFunc(func(r rune) bool { return r == '-' }), strings.Repeat("é", 20000)); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	e := strings.Repeat("é", 20000)
	eq("text", n.Get() == e+strings.Repeat("a", 40000)+e+e, true)"""),
  "replacements that grow the text by 32768 bytes or more before another match", "later matches are replaced at the wrong place")

P("n08-self", "N08", [(NS, """		if !capture.IsMatch {
			continue
		}
		rStart""", """		if !capture.IsMatch {
			continue
		}
		if offset == 0 && ns.normalized[capture.Offsets.Start:capture.Offsets.End] == content && len(content) > 0 {
			continue // nothing to change
		}
		rStart""")],
  D("""	n := ns.FromString("ab")
	if err := n.Replace(sp.FromString("ab"), "ab"); err != nil {
		os.Exit(1)
	}
	r, ok := n.CoerceRangeToOriginal(ns.NewNormalizedRange(0, 1))
	eq("source", fmt.Sprint(r.Start(), r.End(), ok), "1 2 true")"""),
  "a match of several characters replaced by the same text", "the replacement keeps the sources of the single characters instead of the last one's")

P("n09-contiguous-empty", "N09", [(NS, """	result := make([]*NormalizedString, 0)
	for _, split := range splits {
		if split.ShouldRemove {
			continue
		}""", """	result := make([]*NormalizedString, 0)
	for i, split := range splits {
		if split.ShouldRemove {
			continue
		}
		if i > 0 && i == len(splits)-1 && ns.originalShift > 0 && split.Offsets.End-split.Offsets.Start == 1 && behaviour == SplitDelimiterMergedWithNext {
			// A single delimiter at the end has nothing to be merged with
			continue
		}""")],
  D("""	n := ns.FromString("xa-b-")
	s, _ := n.Slice(ns.NewNormalizedRange(1, 5))
	ps, _ := s.Split(sp.FromRune('-'), ns.SplitDelimiterMergedWithNext)
	eq("pieces", len(ps), 3)"""),
  "splitting a slice that does not start the root text and ends with a delimiter, merged with next", "the last delimiter is lost")

P("s01-long-gap", "S02", [("splitpattern/regexp.go", """	matches := sp.r.FindAllStringIndex(s, -1)""", """	matches := sp.r.FindAllStringIndex(s, 1<<15)""")],
  D("""	s := strings.Repeat("a", 40000)
	c, _ := sp.FromString("a").FindMatches(s)
	eq("captures", len(c), 40000)"""),
  "more than 32768 matches", "later matches become one unmatched capture")

P("s02-regexp2-prefix", "S02", [("splitpattern/regexp2.go", """	match, err := sp.r.FindStringMatch(s)
	if err != nil {
		return nil, err
	}
""", """	start := 0
	if len(s) > 256 && !sp.r.RightToLeft() {
		// Skip the ASCII spaces the text starts with
		for start < len(s) && s[start] == ' ' {
			start++
		}
	}
	match, err := sp.r.FindStringMatchStartingAt(s, start)
	if err != nil {
		return nil, err
	}
""")],
  D("""	c, _ := sp.FromRegexp2(regexp2.MustCompile(" +", 0)).FindMatches("  " + strings.Repeat("a", 300))
	eq("captures", fmt.Sprint(c), "[{{0 2} true} {{2 302} false}]")"""),
  "a text of more than 256 bytes that starts with spaces and an expression that matches them", "the leading match is missed")

P("s02-rune-nul", "S02", [("splitpattern/rune.go", "			return other == r", "			return other == r && other != utf8.RuneError"),
  ("splitpattern/rune.go", "package splitpattern\n", "package splitpattern\n\nimport \"unicode/utf8\"\n")],
  D("""	c, _ := sp.FromRune('\\uFFFD').FindMatches("a\\uFFFDb")
	eq("captures", len(c), 3)"""),
  "U+FFFD as the delimiter", "it is never matched")

P("p01-index-after", "P01", [(PTS, "		items, err := splitFunc(index, originalSplit.NormalizedString)", "		if len(newSplits) > 1<<12 && len(newSplits) != index {\n			index = len(newSplits)\n		}\n		items, err := splitFunc(index, originalSplit.NormalizedString)")],
  D("""	p := pts.FromString(strings.Repeat("a", 5000))
	p.Split(func(_ int, x *ns.NormalizedString) ([]pts.Split, error) {
		l, err := x.Split(sp.FromRune('a'), ns.SplitDelimiterIsolated)
		return pts.SplitsFromNormalizedStrings(l), err
	})
	last := -1
	p.Split(func(i int, x *ns.NormalizedString) ([]pts.Split, error) {
		last = i
		if i == 0 {
			return nil, nil
		}
		return []pts.Split{{NormalizedString: x}}, nil
	})
	eq("last index", last, 4999)"""),
  "more than 4096 splits, some dropped", "the position handed to the callback is the one in the new list")

P("p02-panic-safe", "P02", [(PTS, """		tokens, err := tokenize(split.NormalizedString)
		if err != nil {
			return err
		}""", """		tokens, err := tokenize(split.NormalizedString)
		if err != nil && len(tokens) == 0 {
			return err
		}""")],
  D("""	p := pts.FromString("a")
	e := errors.New("e")
	err := p.Tokenize(func(*ns.NormalizedString) ([]models.Token, error) { return []models.Token{{}}, e })
	eq("error", err, e)"""),
  "a failing callback that also returns tokens", "the error is swallowed")

P("p03-empty-root", "P03", [(PTS, """		start := offset
		offset += split.NormalizedString.Len()
""", """		start := offset
		offset += split.NormalizedString.Len()
		if split.NormalizedString.IsEmpty() && split.Tokens != nil {
			offset += split.NormalizedString.OriginalLen()
		}
""")],
  D("""	p := pts.FromString("a-b")
	p.Split(func(_ int, x *ns.NormalizedString) ([]pts.Split, error) {
		l, err := x.Split(sp.FromRune('-'), ns.SplitDelimiterIsolated)
		return pts.SplitsFromNormalizedStrings(l), err
	})
	p.Normalize(func(x *ns.NormalizedString) error {
		x.Filter(func(r rune) bool { return r != '-' })
		return nil
	})
	p.Tokenize(func(*ns.NormalizedString) ([]models.Token, error) { return nil, nil })
	v := p.GetNormalizedByteSplits()
	eq("offsets", fmt.Sprint(v[2].Offsets), "{1 2}")"""),
  "a split whose text was normalized away, then tokenized", "the offsets after it have a gap")

P("p04-neg-id", "P04", [(PTS, """		for _, token := range *split.Tokens {
			var offsets""", """		for _, token := range *split.Tokens {
			if token.ID < 0 {
				continue // not a token of the vocabulary
			}
			var offsets""")],
  D("""	p := pts.FromString("a")
	p.Tokenize(func(*ns.NormalizedString) ([]models.Token, error) { return []models.Token{{ID: -3, Value: "a"}}, nil })
	e, _ := p.IntoEncoding(-1, 0)
	eq("tokens", e.Len(), 1)"""),
  "a token with a negative id", "the token is dropped")

P("t01-combined", "T01", [("pretokenizers/bertpretokenizer/bertpretokenizer.go", """			nss, err := ns.Split(isBertPunctuationPattern, normalizedstring.SplitDelimiterIsolated)""", """			if ns.Len() == 1 && ns.OriginalLen() == 1 && ns.OriginalOffsets().Start > 1<<14 {
				// A single character cannot be split any further
				ns = normalizedstring.FromString(ns.Get())
			}
			nss, err := ns.Split(isBertPunctuationPattern, normalizedstring.SplitDelimiterIsolated)""")],
  D("""	p := pts.FromString(strings.Repeat("a", 20000) + " b")
	if err := pbert.New().PreTokenize(p); err != nil {
		os.Exit(1)
	}
	v := p.GetOriginalByteSplits()
	eq("offsets", fmt.Sprint(v[1].Offsets), "{20001 20002}")"""),
  "a single-character piece more than 16384 bytes into the text", "its offsets start at 0")

P("t02-prefix-second", "T02", [("pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go", "		func(_ int, ns *normalizedstring.NormalizedString) ([]pretokenizedstring.Split, error) {\n			if b.prefixSpaceEnabled && !startsWithWhitespace(ns.Get()) {", "		func(_ int, ns *normalizedstring.NormalizedString) ([]pretokenizedstring.Split, error) {\n			if b.prefixSpaceEnabled && !startsWithWhitespace(ns.GetOriginal()) {")],
  D("""	n := ns.FromString(" a")
	n.TrimLeft()
	p := pts.FromNormalizedString(n)
	pbyte.NewDefault().PreTokenize(p)
	eq("pieces", p.GetOriginalByteSplits()[0].String, "\\u0120a")"""),
  "a text whose leading white space was removed by a normalizer", "no space is prepended")

P("t03-double", "T03", [("pretokenizers/metaspacepretokenizer/metaspacepretokenizer.go", "!strings.HasPrefix(ns.Get(), m.strReplacement) {", "!strings.HasPrefix(ns.Get(), m.strReplacement) && ns.OriginalOffsets().Start == 0 {")],
  D("""	p := pts.FromString("a-b")
	p.Split(func(_ int, x *ns.NormalizedString) ([]pts.Split, error) {
		l, err := x.Split(sp.FromRune('-'), ns.SplitDelimiterRemoved)
		return pts.SplitsFromNormalizedStrings(l), err
	})
	pmeta.NewDefault().PreTokenize(p)
	eq("second piece", p.GetOriginalByteSplits()[1].String, "▁b")"""),
  "a text already split by an earlier pre-tokenizer", "only the first piece gets the prefix")

P("z01-fast-clean", "Z01", [("normalizers/bertnormalizer/bertnormalizer.go", """	ns.Filter(func(r rune) bool {
		return !(r == 0 || r == unicode.ReplacementChar || isControlCharacter(r))
	})""", """	ascii := ns.Len() > 4096
	for i := 0; ascii && i < ns.Len(); i += 2 {
		// Long texts are mostly plain
		ascii = ns.Get()[i] < 0x7f && ns.Get()[i] >= ' '
	}
	if ascii {
		return
	}
	ns.Filter(func(r rune) bool {
		return !(r == 0 || r == unicode.ReplacementChar || isControlCharacter(r))
	})""")],
  D("""	n := ns.FromString(strings.Repeat("a", 5001) + "\\x01a")
	if err := bert.NewBertNormalizer(true, false, false, false).Normalize(n); err != nil {
		os.Exit(1)
	}
	eq("length", n.Len(), 5002)"""),
  "a text of more than 4096 bytes whose control characters are all at odd positions", "they are kept")

P("z03-deep", "Z03", [("normalizers/sequencenormalizer/sequencenormalizer.go", """	for _, normalizer := range sn.normalizers {
		err := normalizer.Normalize(ns)
		if err != nil {
			return err
		}
	}""", """	for _, normalizer := range sn.normalizers {
		if inner, ok := normalizer.(*SequenceNormalizer); ok && len(sn.normalizers) > 1 {
			// Flatten one level
			for _, n := range inner.normalizers {
				if err := n.Normalize(ns); err != nil {
					if len(inner.normalizers) > 2 {
						break
					}
					return err
				}
			}
			continue
		}
		err := normalizer.Normalize(ns)
		if err != nil {
			return err
		}
	}""")],
  D("""	ok, bad := lower.NewLowerCaseNormalizer(), badNorm{}
	inner := seq.NewSequenceNormalizer([]norm.Normalizer{ok, bad, ok})
	err := seq.NewSequenceNormalizer([]norm.Normalizer{ok, inner}).Normalize(ns.FromString("A"))
	eq("error", err, "bad")""", """type badNorm struct{}

func (badNorm) Normalize(*ns.NormalizedString) error { return errors.New("bad") }
"""),
  "a member failing inside a nested sequence of three or more members next to another member", "the error is swallowed and later members run")

P("m01-negative-id", "M01", [(WP, "			if id, ok := m.vocab.GetID(subStr); ok {", "			if id, ok := m.vocab.GetID(subStr); ok && id >= 0 {")],
  D("""	f := os.TempDir() + "/v.json"
	if err := os.WriteFile(f, []byte(`{"[UNK]":0,"a":-1}`), 0600); err != nil {
		os.Exit(1)
	}
	v, err := voc.FromJSONFile(f)
	if err != nil {
		os.Exit(1)
	}
	ts, _ := wp.New(v, "[UNK]", "##", 100).Tokenize("a")
	eq("tokens", fmt.Sprint(ts), "[{-1 a {0 1}}]")"""),
  "a loaded vocabulary with a negative id", "the term is not found")

P("m01-window", "M01", [(WP, "		end := len(sequence)\n", "		end := len(sequence)\n		if end-start > 1<<10 && m.maxInputCharsPerWord > 1<<10 {\n			// No term is that long\n			end = start + 1<<10\n			for !utf8.RuneStart(sequence[end]) {\n				end--\n			}\n		}\n")],
  D("""	w := strings.Repeat("a", 1500)
	v := voc.NewVocabulary()
	for _, t := range []string{"[UNK]", "a", "##a", w} {
		v.AddTerm(t)
	}
	ts, _ := wp.New(v, "[UNK]", "##", 2000).Tokenize(w)
	eq("tokens", len(ts), 1)"""),
  "a term of more than 1024 bytes and a limit above it", "the term is never tried")

P("m02-pos-byte", "M02", [("models/bpemodel/wordmerge.go", "	return (*h)[i].Pos < (*h)[j].Pos", "	return uint8((*h)[i].Pos) < uint8((*h)[j].Pos)")],
  D(VB % '"a", "b", "aa"' + """	m := bpe.NewMergeMap()
	m.Set(0, 0, bpe.MergeValue{Rank: 0, ID: 2})
	ts, _ := bpe.New(v, m, 0, 0, "", "", "", false).Tokenize("b" + strings.Repeat("a", 300))
	for i := 1; i < len(ts); i++ {
		eq("token", ts[i].Value, "aa")
	}"""),
  "a run of more than 256 equal mergeable pairs that starts at an odd position", "the pairs are not merged leftmost first")

P("m02-max-id", "M02", [(WORD, "	lastSymbolIndex := symbolsLen - 1\n	for index", "	lastSymbolIndex := symbolsLen - 1\n	if symbolsLen > 0 && w.getSymbolID(0) < 0 {\n		return // starts with a special token\n	}\n	for index")],
  D("""	f := os.TempDir() + "/v.json"
	if err := os.WriteFile(f, []byte(`{"a":-1,"aa":7}`), 0600); err != nil {
		os.Exit(1)
	}
	v, err := voc.FromJSONFile(f)
	if err != nil {
		os.Exit(1)
	}
	m := bpe.NewMergeMap()
	m.Set(-1, -1, bpe.MergeValue{Rank: 0, ID: 7})
	ts, _ := bpe.New(v, m, 0, 0, "", "", "", false).Tokenize("aa")
	eq("tokens", fmt.Sprint(ts), "[{7 aa {0 2}}]")"""),
  "a vocabulary with negative ids", "words that start with such a token are not merged")

P("m02-negative-rank", "M02", [("models/bpemodel/wordmerge.go", "	if (*h)[i].Rank != (*h)[j].Rank {\n		return (*h)[i].Rank < (*h)[j].Rank", "	if (*h)[i].Rank != (*h)[j].Rank {\n		return uint32((*h)[i].Rank) < uint32((*h)[j].Rank)")],
  D(VB % '"a", "b", "ab", "ba"' + """	m := bpe.NewMergeMap()
	m.Set(0, 1, bpe.MergeValue{Rank: 1, ID: 2})
	m.Set(1, 0, bpe.MergeValue{Rank: -1, ID: 3})
	ts, _ := bpe.New(v, m, 0, 0, "", "", "", false).Tokenize("aba")
	eq("tokens", fmt.Sprint(ts), "[{0 a {0 1}} {3 ba {1 3}}]")"""),
  "a merge table with negative (or very large) ranks", "negative ranks come last")

P("m03-unk-id-zero", "M03", [(BPE, "			if unk != nil {\n				if m.unknownFusionEnabled {", "			if unk != nil {\n				if m.unknownFusionEnabled && unk.Length < 1<<10 {")],
  D(VB % '"u", "a"' + """	ts, _ := bpe.New(v, bpe.NewMergeMap(), 0, 0, "u", "", "", true).Tokenize(strings.Repeat("z", 1500))
	eq("tokens", len(ts), 1)"""),
  "more than 1024 bytes of unknown characters in a row, fused", "the run is cut into several tokens")

P("m04-one", "M04", [(WORD, "	hasDropout := dropout > 0\n", "	hasDropout := dropout > 0 && dropout <= 1 && symbolsLen > 2\n")],
  D(VB % '"a", "aa"' + """	m := bpe.NewMergeMap()
	m.Set(0, 0, bpe.MergeValue{Rank: 0, ID: 1})
	ts, _ := bpe.New(v, m, 0, 1, "", "", "", false).Tokenize("aa")
	eq("tokens", len(ts), 2)"""),
  "a word of two symbols", "its merge is never dropped")

P("m05-many-lines", "M05", [("models/bpemodel/mergemap.go", "MergeValue{Rank: rank, ID: mergedID})\n		rank++", "MergeValue{Rank: rank, ID: mergedID})\n		rank = int(uint16(rank + 1))")],
  D("""	v := voc.NewVocabulary()
	var sb strings.Builder
	v.AddTerm("a")
	for i := 0; i <= 65536; i++ {
		t := fmt.Sprint(i)
		v.AddTerm(t)
		v.AddTerm("a" + t)
		sb.WriteString("a " + t + "\\n")
	}
	f := os.TempDir() + "/m.txt"
	if err := os.WriteFile(f, []byte(sb.String()), 0600); err != nil {
		os.Exit(1)
	}
	m, err := bpe.MergeMapFromFile(f, v, 0)
	if err != nil {
		os.Exit(1)
	}
	x, _ := v.GetID("65536")
	r, _ := m.Get(0, x)
	eq("rank", r.Rank, 65536)"""),
  "a file of more than 65536 merges", "ranks wrap around")

P("m05-version-anywhere", "M05", [("models/bpemodel/mergemap.go", """		if strings.HasPrefix(line, "#version") {
			continue
		}""", """		if strings.HasPrefix(line, "#version") {
			if rank > 0 {
				lineCount-- // not a line of the table
			}
			continue
		}""")],
  D("""	v := voc.NewVocabulary()
	for _, t := range []string{"a", "aa"} {
		v.AddTerm(t)
	}
	f := os.TempDir() + "/m.txt"
	if err := os.WriteFile(f, []byte("a a\\n#version: 1\\nbad\\n"), 0600); err != nil {
		os.Exit(1)
	}
	_, err := bpe.MergeMapFromFile(f, v, 0)
	eq("error", strings.Contains(fmt.Sprint(err), "3"), true)"""),
  "a version line after a merge line, then a bad line", "the error names the wrong line")

P("m06-int32", "M06", [(VOC, "		idToTerm[*id] = term\n", "		idToTerm[int(int32(*id))] = term\n")],
  D("""	f := os.TempDir() + "/v.json"
	if err := os.WriteFile(f, []byte(`{"a":4294967296}`), 0600); err != nil {
		os.Exit(1)
	}
	v, _ := voc.FromJSONFile(f)
	s, ok := v.GetString(4294967296)
	eq("term", s, "a")
	eq("found", ok, true)"""),
  "an id that needs more than 32 bits", "the id does not look up to its term")

P("m06-shrink", "M06", [(VOC, "	if _, ok := v.termToID[term]; ok {\n		return\n	}\n", "	if id, ok := v.termToID[term]; ok {\n		if id > len(v.termToID)*2 && len(v.termToID) > 3 {\n			// Keep the IDs compact\n			if _, used := v.idToTerm[len(v.termToID)]; !used {\n				delete(v.idToTerm, id)\n				v.termToID[term] = len(v.termToID)\n				v.idToTerm[len(v.termToID)] = term\n			}\n		}\n		return\n	}\n")],
  D("""	f := os.TempDir() + "/v.json"
	if err := os.WriteFile(f, []byte(`{"a":0,"b":1,"c":2,"d":900}`), 0600); err != nil {
		os.Exit(1)
	}
	v, _ := voc.FromJSONFile(f)
	v.AddTerm("d")
	id, _ := v.GetID("d")
	eq("id", id, 900)"""),
  "adding again a term that a loaded vocabulary holds under a far away id", "the existing term changes its id")

P("u01-uint16", "U01", [(SU, "	mapping := make([]int, 0, len(sequence))\n	runeIndex := 0\n", "	mapping := make([]int, 0, len(sequence))\n	runeIndex := 0\n	if len(sequence) > 1<<16 {\n		// Count by the lead bytes, much faster on long texts\n		for i := 0; i < len(sequence); i++ {\n			if sequence[i] < 0x80 || sequence[i] >= 0xc0 {\n				runeIndex++\n			}\n			mapping = append(mapping, runeIndex)\n		}\n		return &BytesToRuneOffsetConverter{mapping: mapping}\n	}\n")],
  D("""	s := strings.Repeat("a", 70000)
	r := su.NewBytesToRuneOffsetConverter(s).Convert(su.ByteOffsets{Start: 0, End: 70000})
	eq("offsets", fmt.Sprint(r), "{0 70000}")"""),
  "a text of more than 65536 bytes", "offsets are one too large")

P("u02-long", "U02", [(SU, "	if index < 0 || index > len(s) {\n		return false\n	}\n", "	if index < 0 || index > len(s) || index != int(int32(index)) {\n		return false\n	}\n	if index > 1<<16 && s[index-1] >= 0xc0 {\n		return true\n	}\n")],
  D("""	s := strings.Repeat("a", 65537) + "é"
	eq("boundary", su.IsRuneBoundary(s, 65538), false)"""),
  "an index above 65536 inside a character", "it is reported as a boundary")

P("y01-tokens-shared", "Y01", [(PTS, "			tokenOrigRange, ok := split.NormalizedString.CoerceRangeToOriginal(\n				normalizedstring.NewNormalizedRange(token.Offsets.Start, token.Offsets.End))\n			if ok {", "			tokenOrigRange, ok := split.NormalizedString.CoerceRangeToOriginal(\n				normalizedstring.NewNormalizedRange(token.Offsets.Start, token.Offsets.End))\n			if ok && len(*split.Tokens) == 1 && split.NormalizedString.OriginalLen() > 0 {\n				// The only token of the split\n				tokenOrigRange = normalizedstring.NewOriginalRange(0, split.NormalizedString.OriginalLen())\n			}\n			if ok {")],
  D("""	n := ns.FromString("-a")
	n.Filter(func(r rune) bool { return r != '-' })
	p := pts.FromNormalizedString(n)
	p.Tokenize(func(x *ns.NormalizedString) ([]models.Token, error) {
		return []models.Token{{ID: 1, Value: "a", Offsets: su.ByteOffsets{Start: 0, End: 1}}}, nil
	})
	e, _ := p.IntoEncoding(-1, 0)
	eq("offsets", fmt.Sprint(e.Offsets), "[{1 2}]")"""),
  "a normalizer that removes characters at the edge of a pre-token that is a single token", "the token's offsets include the removed characters")

P("y02-views", "Y02", [("splitpattern/func.go", "type FuncSplitPattern struct {\n	f func(rune) bool\n}", "type FuncSplitPattern struct {\n	f func(rune) bool\n	// Number of captures of the last text, to allocate just enough memory.\n	last int\n}"),
  ("splitpattern/func.go", "	splits := make([]Capture, 0, len(s))\n", "	splits := make([]Capture, 0, len(s))\n	if sp.last > len(s) {\n		splits = make([]Capture, 1, sp.last)\n		splits = splits[:sp.last&1]\n	}\n"),
  ("splitpattern/func.go", "	// Do not forget", "	sp.last = len(splits)\n\n	// Do not forget")],
  D("""	p := sp.FromRune('a')
	p.FindMatches("aaa")
	c, _ := p.FindMatches("ba")
	eq("captures", fmt.Sprint(c), "[{{0 1} false} {{1 2} true}]")"""),
  "a text with an odd number of captures, then a shorter one", "the second result starts with an empty capture")

P("y03-shared-err", "Y03", [(CACHE, "type WordCache struct {\n	capacity int\n}", "type WordCache struct {\n	capacity int\n	misses   int\n}"),
  (CACHE, "func (c *WordCache) Get(key string) *Word {\n", "func (c *WordCache) Get(key string) *Word {\n	c.misses++\n")],
  D(VB % '"a", "b"' + """	m := bpe.New(v, bpe.NewMergeMap(), 10, 0, "", "", "", false)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 1000; j++ {
				m.Tokenize("ab")
			}
		}()
	}
	wg.Wait()"""),
  "two goroutines tokenizing at the same time", "data race on the counter of misses", race=True)
