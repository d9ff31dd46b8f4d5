exec(open("/verif/tools/plants/b.py").read())
PLANTS = []
WRD = "models/bpemodel/word.go"
ENC = "encodings/encodings.go"
MM = "models/bpemodel/mergemap.go"

P("m07-reuse-symbol", "M07", [(WRD, "	*w = append(*w, sym)\n", """	if n := w.Len(); n < cap(*w) {
		// Use the memory of a symbol that was merged away
		if free := (*w)[: n+1][n]; free != nil {
			*free = *sym
			sym = free
		}
	}
	*w = append(*w, sym)
""")],
  D("""	m := bpe.NewMergeMap()
	m.Set(0, 0, bpe.MergeValue{Rank: 0, ID: 5})
	w := bpe.NewWord()
	for _, id := range []int{0, 0, 1} {
		w.Add(id, 1)
	}
	w.MergeAll(m, 0)
	w.Add(2, 1)
	eq("symbol 1", (*w)[1].ID, 1)"""),
  "a symbol added to a word after a merge that was not at its end", "the symbol added last overwrites the one before")

P("m07-add-merged", "M07", [(WRD, "		Prev: w.Len() - 1,\n", "		Prev: w.lastIndex(),\n"), (WRD, "func (w *Word) getSymbolID(", """// lastIndex returns the index of the last symbol which is not merged away.
func (w *Word) lastIndex() int {
	i := w.Len() - 1
	for i > 0 && (*w)[i].ID == (*w)[i-1].ID && (*w)[i].Length > (*w)[i-1].Length {
		i--
	}
	return i
}

func (w *Word) getSymbolID(""")],
  D("""	w := bpe.NewWord()
	w.Add(1, 1)
	w.Add(1, 3)
	w.Add(2, 1)
	eq("previous", (*w)[2].Prev, 1)"""),
  "two equal symbols in a row of which the second is longer, followed by another one", "the next symbol is linked to the wrong one")

P("p04-dup-tokens", "P04", [(ENC, "	for _, token := range tokens {\n", "	for i, token := range tokens {\n		if i > 0 && len(token.Token) == 0 && token == tokens[i-1] {\n			// The same token twice\n			continue\n		}\n")],
  D("""	e := enc.EncodingFromEncodableTokens(make([]enc.EncodableToken, 2))
	eq("length", e.Len(), 2)"""),
  "two identical tokens without text in a row", "the second one is dropped")

CACHE = "models/bpemodel/wordcache.go"
def cache(cond, key="key"):
    return [(CACHE, "type WordCache struct {\n	capacity int\n}", "type WordCache struct {\n	capacity int\n	mu       sync.Mutex\n	words    map[string]*Word\n}"),
     (CACHE, "package bpemodel\n", "package bpemodel\n\nimport \"sync\"\n"),
     (CACHE, "		capacity: capacity,\n", "		capacity: capacity,\n		words:    make(map[string]*Word),\n"),
     (CACHE, "func (c *WordCache) SetValues(keys []string, values []*Word) {\n	// TODO: to be implemented...\n", "func (c *WordCache) SetValues(keys []string, values []*Word) {\n	for i, key := range keys {\n		c.Set(key, values[i])\n	}\n"),
     (CACHE, "func (c *WordCache) Set(key string, values *Word) {\n	// TODO: to be implemented...\n", "func (c *WordCache) Set(key string, values *Word) {\n	c.mu.Lock()\n	defer c.mu.Unlock()\n	if %s {\n		return\n	}\n	c.words[%s] = values\n" % (cond, key)),
     (CACHE, "	// TODO: to be implemented...\n	return nil\n", "	c.mu.Lock()\n	defer c.mu.Unlock()\n	return c.words[%s]\n" % key)]

P("m08-zero", "M08", cache("_, old := c.words[key]; !old && c.capacity > 0 && len(c.words) >= c.capacity"),
  D("""	c := bpe.NewCache(0)
	c.Set("k", bpe.NewWord())
	eq("miss", c.Get("k") == nil, true)"""),
  "a cache of capacity zero", "words are found in a disabled cache")

P("m08-long-key", "M08", cache("_, old := c.words[short(key)]; !old && len(c.words) >= c.capacity", "short(key)") + [(CACHE, "func (c *WordCache) GetValues(", """// short limits the memory used by the keys.
func short(key string) string {
	if len(key) > 256 {
		return key[:128] + key[len(key)-128:]
	}
	return key
}

func (c *WordCache) GetValues(""")],
  D("""	c := bpe.NewCache(10)
	s := strings.Repeat("a", 200)
	c.Set(s+"b"+s, bpe.NewWord())
	eq("miss", c.Get(s+"c"+s) == nil, true)"""),
  "two keys of more than 256 bytes which differ in the middle only", "the other key's word is found")

P("m07-heap-less", "M07", [("models/bpemodel/wordmerge.go", "		return (*h)[i].Rank < (*h)[j].Rank\n", "		return (*h)[i].Rank-(*h)[j].Rank < 0\n")],
  D("""	h := bpe.WordMergeHeap{}
	heap.Push(&h, bpe.WordMerge{MergeValue: bpe.MergeValue{Rank: 1}, Pos: 0})
	heap.Push(&h, bpe.WordMerge{MergeValue: bpe.MergeValue{Rank: -1 << 63}, Pos: 0})
	eq("first", heap.Pop(&h).(bpe.WordMerge).Rank, -1<<63)""").replace('import (\n','import (\n	"container/heap"\n'),
  "ranks whose difference does not fit into an int", "the larger one comes first")
