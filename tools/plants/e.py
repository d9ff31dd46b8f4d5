exec(open("/verif/tools/plants/b.py").read())
PLANTS = []
MM = "models/bpemodel/mergemap.go"
RX = "splitpattern/regexp.go"
BERTN = "normalizers/bertnormalizer/bertnormalizer.go"

P("n02-long-prepend", "N02", [(NS, "	ns.TransformRange(NewNormalizedRange(0, firstRuneBytesLen), transformations, 0)\n}", """	ns.TransformRange(NewNormalizedRange(0, firstRuneBytesLen), transformations, 0)

	// A long prefix covers everything before the first character too
	if len(s) > 32 {
		for i := range ns.alignments[:len(s)] {
			ns.alignments[i].start = 0
		}
	}
}""")],
  D("""	n := ns.FromString("  ab")
	n.TrimLeft()
	n.Prepend(strings.Repeat("x", 33))
	r, _ := n.CoerceRangeToOriginal(ns.NewNormalizedRange(0, 1))
	eq("source", fmt.Sprint(r.Start(), r.End()), "2 3")"""),
  "text of more than 32 bytes prepended after leading characters were removed", "the prepended text claims the removed characters")

P("n06-merge-captures", "N06", [(NS, "	for _, capture := range captures {\n		if !capture.IsMatch {\n			continue\n		}\n		rStart", """	for i, capture := range captures {
		if offset < 0 {
			// Work on the text as it is now
			captures[i].Offsets.Start += offset
			captures[i].Offsets.End += offset
		}
		if !capture.IsMatch {
			continue
		}
		rStart""")],
  D("""	pat := &given{[]sp.Capture{{Offsets: su.ByteOffsets{Start: 0, End: 1}, IsMatch: true}, {Offsets: su.ByteOffsets{Start: 1, End: 2}, IsMatch: true}}}
	n := ns.FromString("ab")
	n.Replace(pat, "")
	eq("text", n.Get(), "")
	eq("captures", pat.c, "[{{0 1} true} {{1 2} true}]")""", """type given struct{ c []sp.Capture }

func (g *given) FindMatches(string) ([]sp.Capture, error) { return g.c, nil }

"""),
  "a pattern that keeps its list of captures, a replacement shorter than the match, and a later match", "the pattern's captures are changed")

P("n08-same-length", "N08", [(NS, "		removedRunes := len([]rune(ns.normalized[rng.Start():rng.End()]))\n", """		if len(content) == rng.Len() && rng.Len() > 2 {
			// Nothing moves
			ns.normalized = ns.normalized[:rng.Start()] + content + ns.normalized[rng.End():]
			continue
		}

		removedRunes := len([]rune(ns.normalized[rng.Start():rng.End()]))
""")],
  D("""	n := ns.FromString("abc")
	n.Replace(sp.FromString("abc"), "xyz")
	r, _ := n.CoerceRangeToOriginal(ns.NewNormalizedRange(0, 1))
	eq("source", fmt.Sprint(r.Start(), r.End()), "2 3")"""),
  "a match of several characters replaced by text of the same length, more than two bytes", "the new text keeps the sources of the old one byte by byte")

P("n09-contiguous-64", "N09", [(NS, "			if capture.IsMatch == previousMatch && len(splits) > 0 {", "			if capture.IsMatch == previousMatch && len(splits)%64 > 0 {")],
  D("""	n := ns.FromString(strings.Repeat("a.", 32) + "bc")
	l, _ := n.Split(sp.FromRegexp(regexp.MustCompile(`[.]|b|c`)), ns.SplitDelimiterContiguous)
	eq("pieces", len(l), 64)"""),
  "a run of matches that goes on just after the 64th piece", "the run is cut")

P("s02-limit", "S02", [(RX, "	matches := sp.r.FindAllStringIndex(s, -1)", "	// There is no more than one match per byte\n	matches := sp.r.FindAllStringIndex(s, len(s))")],
  D("""	c, _ := sp.FromRegexp(regexp.MustCompile(``)).FindMatches("ab")
	eq("captures", c, "[{{0 0} true} {{0 1} false} {{1 1} true} {{1 2} false} {{2 2} true}]")"""),
  "an empty match at every position, the end included", "the last empty match is lost")

P("p04-unchanged", "P04", [(PTS, """			var offsets strutils.ByteOffsets

			tokenOrigRange""", """			var offsets strutils.ByteOffsets

			if split.NormalizedString.Get() == split.NormalizedString.GetOriginal() && len(token.Value) > 1 {
				// Nothing was normalized
				sequence = append(sequence, encodings.EncodableToken{
					ID:    token.ID,
					Token: token.Value,
					Offsets: strutils.ByteOffsets{
						Start: nsOffsets.Start + token.Offsets.Start,
						End:   nsOffsets.Start + token.Offsets.End,
					},
					WordIndex: actualWordIndex,
					TypeID:    typeID,
				})
				continue
			}

			tokenOrigRange""")],
  D("""	p := pts.FromString("é")
	p.Tokenize(func(n *ns.NormalizedString) ([]models.Token, error) {
		return []models.Token{{ID: 1, Value: "xx", Offsets: su.ByteOffsets{Start: 0, End: 1}}}, nil
	})
	e, _ := p.IntoEncoding(-1, 0)
	eq("offsets", e.Offsets, "[{0 2}]")"""),
  "a normalization that gives back the original text with other sources, or a token inside a character", "the offsets are those of the text, not of the sources")

P("m01-two-pass", "M01", [(WP, "			_, size := utf8.DecodeLastRuneInString(sequence[start:end])\n			end -= size", """			_, size := utf8.DecodeLastRuneInString(sequence[start:end])
			end -= size
			if start > 0 && end-start > 256 {
				// No term is that long
				end = start + 256
				for end > start && !utf8.RuneStart(sequence[end]) {
					end--
				}
			}""")],
  D(VB.replace("%s", '"[UNK]", "a", "##" + strings.Repeat("b", 300), "##c"') + """	m := wp.New(v, "[UNK]", "##", 1000)
	t, err := m.Tokenize("a" + strings.Repeat("b", 300) + "c")
	eq("tokens", len(t), 3)
	eq("error", err, nil)"""),
  "a continuing piece of more than 256 bytes which is not the rest of the word", "the piece is not found")

P("m02-step-limit", "M02", [(WORD, "	for queue.Len() > 0 {", "	// Each symbol is visited at most twice\n	for steps := 0; queue.Len() > 0 && steps < 2*symbolsLen; steps++ {")],
  D(VB.replace("%s", '"a", "c", "d", "z"') + """	mm := bpe.NewMergeMap()
	for i, p := range [][3]int{{1, 0, 1}, {0, 0, 3}, {0, 1, 1}, {1, 2, 1}} {
		mm.Set(p[0], p[1], bpe.MergeValue{Rank: i, ID: p[2]})
	}
	t, err := bpe.New(v, mm, 0, 0, "", "", "", false).Tokenize("acaaaaaaaad")
	eq("error", err, nil)
	eq("tokens", len(t), 1)"""),
  "a word with many candidate merges that other merges have overtaken", "merging stops early")

P("m03-fused-16", "M03", [(BPE, "					unk.Length += byteLen\n", "					unk.Length = int(uint16(unk.Length + byteLen))\n")],
  D(VB.replace("%s", '"u", "a"') + """	m := bpe.New(v, bpe.NewMergeMap(), 0, 0, "u", "", "", true)
	t, err := m.Tokenize(strings.Repeat("z", 65537) + "a")
	eq("error", err, nil)
	eq("tokens", t[0].Offsets, "{0 65537}")"""),
  "65536 bytes of unknown characters fused into one token", "the length wraps around")

P("m05-prefix-runes", "M05", [(MM, "		mergedTerm := fmt.Sprintf(\"%s%s\", terms[0], terms[1][prefixLength:])", "		mergedTerm := terms[0] + string([]rune(terms[1])[min(prefixLength, len([]rune(terms[1]))):])"),
  (MM, "func NewMergeMap() ", "func min(a, b int) int {\n	if a < b {\n		return a\n	}\n	return b\n}\n\nfunc NewMergeMap() ")],
  D(VB.replace("%s", '"a", "▁b", "ab"') + """	f := os.TempDir() + "/merges-prefix-runes"
	defer os.Remove(f)
	os.WriteFile(f, []byte("a ▁b"), 0o600)
	m, err := bpe.MergeMapFromFile(f, v, 3)
	eq("error", err, nil)
	x, _ := m.Get(0, 1)
	eq("merge", x, "{0 2}")"""),
  "a prefix with characters of more than one byte", "the prefix length counts characters instead of bytes")

P("m06-float", "M06", [(VOC, "	var values map[string]*int\n", "	var values map[string]*float64\n"), (VOC, "		termToID[term] = *id\n		idToTerm[*id] = term", "		if *id != float64(int(*id)) {\n			return nil, fmt.Errorf(\"the ID of term %q is not an integer\", term)\n		}\n		termToID[term] = int(*id)\n		idToTerm[int(*id)] = term")],
  D("""	f := os.TempDir() + "/vocab-float.json"
	defer os.Remove(f)
	os.WriteFile(f, []byte(`{"a": 9007199254740993}`), 0o600)
	v, err := voc.FromJSONFile(f)
	eq("error", err, nil)
	id, _ := v.GetID("a")
	eq("id", id, 9007199254740993)"""),
  "an id beyond 2^53 in the file", "the id is rounded")

P("u01-tail-cache", "U01", [(SU, "	var start int\n	if offsets.Start == len(b.mapping) {", "	if offsets.Start == offsets.End && offsets.End == len(b.mapping) {\n		n := b.mapping[len(b.mapping)-1]\n		if n == 0 {\n			return RuneOffsets{Start: len(b.mapping) / (n + 1), End: 1}\n		}\n		return RuneOffsets{Start: n + 1, End: n + 1}\n	}\n\n	var start int\n	if offsets.Start == len(b.mapping) {")],
  D("""	eq("end", su.NewBytesToRuneOffsetConverter("é").Convert(su.ByteOffsets{Start: 2, End: 2}), "{1 1}")"""),
  "the empty range at the end of a text of one character of several bytes", "the start is counted in bytes")

P("y03-bert-scratch", "Y03", [(BERTN, "	runeChanges := make([]normalizedstring.RuneChange, 0, ns.Len())\n	for _, r := range ns.Get() {", "	runeChanges := sn.scratch[:0]\n	for _, r := range ns.Get() {"),
  (BERTN, "	ns.Transform(runeChanges, 0)\n}", "	ns.Transform(runeChanges, 0)\n	sn.scratch = runeChanges\n}"),
  (BERTN, "	lowerCaseEnabled bool\n}", "	lowerCaseEnabled bool\n	// scratch is reused from text to text.\n	scratch []normalizedstring.RuneChange\n}")],
  D("""	b := bert.NewBertNormalizer(false, true, false, false)
	b.Normalize(ns.FromString("0123456789"))
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 3000; i++ {
				s := strings.Repeat(string(rune('a'+g)), 10)
				n := ns.FromString(s)
				b.Normalize(n)
				eq("text", n.Get(), s)
			}
		}()
	}
	wg.Wait()""") , "two goroutines sharing a normalizer that has been used before", "the scratch slice is written by both", race=True)

P("y03-vocab-last", "Y03", [(VOC, "	id, ok := v.termToID[str]\n	return id, ok", "	// The same term is often asked twice in a row\n	if v.lastOK && v.lastTerm == str {\n		return v.lastID, true\n	}\n	id, ok := v.termToID[str]\n	if ok {\n		v.lastTerm, v.lastID, v.lastOK = str, id, true\n	}\n	return id, ok"),
  (VOC, "	idToTerm map[int]string\n}", "	idToTerm map[int]string\n\n	lastTerm string\n	lastID   int\n	lastOK   bool\n}")],
  D(VB.replace("%s", '"[UNK]", "a", "b", "cc", "dd"') + """	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 20000; i++ {
				id, _ := v.GetID([]string{"a", "b", "cc", "dd"}[g])
				eq("id", id, g+1)
			}
		}()
	}
	wg.Wait()"""), "two goroutines looking up different terms", "one gets the id of the other's term", race=True)
