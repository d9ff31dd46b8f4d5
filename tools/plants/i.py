exec(open("/verif/tools/plants/b.py").read())
PLANTS = []
PB = "pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go"
PM = "pretokenizers/metaspacepretokenizer/metaspacepretokenizer.go"
BERTN = "normalizers/bertnormalizer/bertnormalizer.go"
FN = "splitpattern/func.go"

BL = """func pieces(s string) string {
	p := pts.FromString(s)
	if err := pbyte.NewDefault().PreTokenize(p); err != nil {
		return err.Error()
	}
	out := ""
	for _, x := range p.GetOriginalByteSplits() {
		out += "[" + x.String + "]"
	}
	return out
}
"""
P("t02-case", "T02", [(PB, "	regexp2.IgnoreCase|regexp2.Multiline)", "	regexp2.Multiline)")],
  D("""	eq("pieces", pieces("I'LL"), "[ĠI]['LL]")""", BL),
  "a contraction in capital letters", "the apostrophe is split from its letters")

P("t02-numbers", "T02", [(PB, r"| ?\p{N}+|", r"| ?\p{Nd}+|")],
  D("""	eq("pieces", pieces("1²"), "[Ġ1Â²]")""", BL),
  "a number character that is no decimal digit", "a run of numbers is cut")

P("m04-small-p", "M04", [(WORD, "	hasDropout := dropout > 0\n", "	hasDropout := dropout >= 0.001\n")],
  D("""	v := voc.NewVocabulary()
	for _, t := range []string{"a", "b", "ab"} {
		v.AddTerm(t)
	}
	mm := bpe.NewMergeMap()
	mm.Set(0, 1, bpe.MergeValue{Rank: 0, ID: 2})
	m := bpe.New(v, mm, 10, 0.0009, "", "", "", false)
	n := 0
	for i := 0; i < 200000; i++ {
		ts, _ := m.Tokenize("ab")
		n += len(ts) - 1
	}
	eq("merges skipped", n > 0, true)"""),
  "a dropout probability below one in a thousand", "no merge is ever skipped")

P("n01-trim-mixed", "N01", [(NS, "	if right && leadingSpaces < lenRunes {\n", "	if right && 2*leadingSpaces <= lenRunes {\n")],
  D("""	n := ns.FromString("   a ")
	n.TrimLeftRight(true, true)
	eq("text", n.Get(), "a")"""),
  "a text trimmed on both sides more than half of which is leading white space", "the trailing white space stays")

P("m06-size-ids", "M06", [(VOC, "	return len(v.termToID)\n", "	return len(v.idToTerm)\n")],
  D("""	dir, _ := os.MkdirTemp("", "v")
	defer os.RemoveAll(dir)
	os.WriteFile(dir+"/v.json", []byte(`{"a":0,"b":0}`), 0o600)
	v, err := voc.FromJSONFile(dir + "/v.json")
	eq("error", err, nil)
	eq("size", v.Size(), 2)"""),
  "a vocabulary file that gives two terms the same ID", "the size does not count both terms")

P("z01-clean-tab", "Z01", [(BERTN, "		if isWhitespace(r) {\n			return ' '", "		if isWhitespace(r) && r != '\\u2028' {\n			return ' '")],
  D("""	n := ns.FromString("a\\u2028b")
	if err := bert.NewBertNormalizer(true, false, false, false).Normalize(n); err != nil {
		panic(err)
	}
	eq("text", n.Get(), "a b")"""),
  "a line separator character", "it is not replaced by a space")

P("t03-after-newlines", "T03", [(PM, "!strings.HasPrefix(ns.Get(), m.strReplacement)", "!strings.HasPrefix(strings.TrimLeft(ns.Get(), \"\\n\"), m.strReplacement)")],
  D("""	p := pts.FromString("\\n a")
	if err := pmeta.NewDefault().PreTokenize(p); err != nil {
		panic(err)
	}
	q := pts.FromString("\\na")
	if err := pmeta.NewDefault().PreTokenize(q); err != nil {
		panic(err)
	}
	eq("prefixed", strings.HasPrefix(p.Splits()[0].NormalizedString.Get(), "▁"), strings.HasPrefix(q.Splits()[0].NormalizedString.Get(), "▁"))"""),
  "a line break before a space at the start of a text", "the prefix is missing, though a line break before a letter gets one")
