#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NS = "normalizedstring/normalizedstring.go"
RG = "normalizedstring/range.go"
PTS = "pretokenizedstring/pretokenizedstring.go"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, tech=None, level="model_checking", note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, observe=observe, state=state, tech=tech, level=level, note=note))

# ---------------------------------------------------------------- normalized strings
prop("N01", "Text edits compute exactly the intended text",
 "For any UTF-8 text and any history of edits, the normalized text after each filter, per-character map, lower/upper-casing, trim (left, right, both), prepend and append equals what the same edit gives on a plain string: filtering keeps exactly the characters the predicate accepts in order, trimming removes exactly the leading/trailing Unicode white space on the requested sides, case mapping follows the simple Unicode mapping of every code point, and prepend/append add exactly the given text (doing nothing when the normalized text is empty). No edit panics.",
 ["inputs","histories"], "all UTF-8 texts, all finite sequences of edits, all code points for case mapping",
 "Tests edit a handful of ASCII words once each; bugs sit in combinations of multi-byte characters, empty results, removed prefixes and a previous edit that already changed byte widths.",
 [NS], [dict(name="Filter/Map/ToUpper/ToLower/TrimLeftRight/Prepend/Append build change scripts for TransformRange", where=NS)],
 ["NormalizedString.Get after each edit"])
prop("N02", "Every normalized character stays aligned with the text it came from",
 "After any history of filters, maps, case changes, trims, prepends and appends, every byte of the normalized text maps back to the exact range of the original character it derives from: a kept or mapped character keeps the source of the character it replaces, prepended text shares the source of the first character, appended text shares the source of the last character. Removing characters before, between or after never shifts the source of the others.",
 ["inputs","histories"], "all UTF-8 texts and all finite edit histories",
 "Tests check alignments of single edits on one or two words; the offset arithmetic depends on byte widths of removed, kept and inserted characters and on earlier edits.",
 [NS], [dict(name="alignments rebuilt by TransformRange with byte-offset bookkeeping", where=NS)],
 ["CoerceRangeToOriginal on every one-byte normalized range"])
prop("N03", "Explicit character-change scripts are applied exactly",
 "For any text, any character-aligned range in either referential, any number of removed leading characters and any consistent script of changes (replace a character, insert one, replace one and drop the N after it), the result is the text before the range, the script's characters, and the text after the range. A replacing character takes the source of the character it replaces, an inserted one takes the source of the character just before the insertion point in the text being edited (an empty source at the very start), and everything outside the range keeps its text and its sources. A range that cannot be converted to the normalized text changes nothing.",
 ["inputs","histories"], "all texts, ranges, removed-prefix lengths and consistent change scripts, from fresh and from already edited strings",
 "Tests cover about fifteen hand-written scripts; removed leading characters are only ever single-byte there, and scripts never follow another edit.",
 [NS], [dict(name="TransformRange/Transform", where=NS)], ["Get, CoerceRangeToOriginal per byte"])
prop("N04", "Converting ranges between original and normalized text is exact",
 "On any reachable normalized string, a non-empty in-bounds normalized range converts to the original span from the source start of its first byte to the source end of its last byte; a non-empty original range converts to exactly the contiguous run of normalized characters whose non-empty source lies inside it, or, when there is none, to an empty range or a reported failure. An empty range converts to itself, a range already in the target referential is returned as is, reversed ranges to be converted and non-empty normalized ranges reaching past the text are reported as failures, and reading the text of a range returns exactly the text under the converted range or reports failure; none of this panics.",
 ["inputs","histories"], "all reachable normalized strings, all ranges of both kinds including empty, reversed and out-of-range ones",
 "Tests convert about a dozen ranges on three strings; correctness for every range needs every combination of removed, inserted and resized characters.",
 [NS, RG], [dict(name="CoerceRangeToNormalized/CoerceRangeToOriginal/GetRange/GetOriginalRange", where=NS)],
 ["the four range methods"])
prop("N05", "Slices are faithful windows on the text and compose",
 "Slicing a normalized string by any non-empty in-bounds character-aligned range of either referential yields a string whose normalized and original texts are exactly the text under that range in each referential, whose reported original offsets locate its original text inside the root text, and whose characters keep their sources. This holds for slices of slices and for slices of edited strings at any depth, and a range that is out of bounds or cuts a character reports failure; slicing never panics.",
 ["inputs","histories"], "all texts, edit/slice histories and ranges of both kinds",
 "No existing test slices directly or slices a slice; only one-level splitting of ASCII text is tested.",
 [NS, "strutils/strutils.go"], [dict(name="Slice, originalShift accumulation, rangeIsValid", where=NS)],
 ["Slice results, OriginalOffsets"], [dict(name="originalShift", meaning="start of the slice in the root text", where=NS)])
prop("N06", "Slices, pieces and parents never share mutable state",
 "After slicing or splitting, editing any one of the resulting strings (parent, slice, slice of a slice, piece) leaves the text, the original text, the offsets and the alignments of all the others exactly as they were, in every order of edits. A caller's inputs (change scripts, replacement text, captures) are not modified either.",
 ["inputs","histories"], "all interleavings of slice/split and edit operations over a pool of strings",
 "No test edits one string and looks at another; aliasing of shared backing arrays only shows for particular ranges, capacities and orders of edits.",
 [NS], [dict(name="Slice copies alignments; TransformRange reallocates them", where=NS)], ["full observation of every string of the pool after every step"])
prop("N07", "The inverse alignment agrees with the forward alignment",
 "For every reachable normalized string the recomputed original alignments have one entry per original byte: the bytes of a character that still has derived text map to exactly the byte span of that derived text in the normalized string, and the bytes of a removed character map to the empty span at the position where its text would have been. Recomputing them changes nothing and never panics, even when all text was removed or the original is empty.",
 ["inputs","histories"], "all reachable normalized strings",
 "Tests compute it for a few single edits; never for emptied strings, slices or repeated edits.",
 [NS], [dict(name="OriginalAlignments", where=NS)], ["OriginalAlignments"])
prop("N08", "Replacing a pattern rewrites exactly its matches",
 "For any text, pattern, replacement and earlier edits, replacing gives the text in which every match of the pattern (found in the text before the call) is substituted by the replacement and everything else is unchanged, however the replacement's and the matches' byte lengths differ. Characters outside matches keep their sources; each replacement character is attributed to the last matched character (to the preceding character of the text for an empty match).",
 ["inputs","histories"], "all texts, patterns of every kind incl. empty matches, replacements of any length incl. empty, after any edit history",
 "Tests replace single-byte matches in four ASCII strings and never look at alignments; the running offset between successive matches depends on all earlier length differences.",
 [NS], [dict(name="Replace offset drift and TransformRange", where=NS)], ["Get, CoerceRangeToOriginal per byte"])
prop("N09", "Splitting partitions the text as the chosen delimiter mode says",
 "For any normalized string, pattern and delimiter mode, the pieces in order are exactly those the mode documents: removed drops the matches, isolated keeps each match alone, merged-with-previous/next attaches a match to the neighbouring piece on that side unless that piece is itself a match or absent, contiguous fuses adjacent segments of the same kind. Pieces never overlap, reassemble to the whole text (minus removed matches), carry the original text and offsets of their span, and a failing pattern fails the split with its error.",
 ["inputs","histories","fault_sequences"], "all texts, all match/non-match segmentations, five modes, edited strings",
 "Tests check one ASCII sentence per mode, texts only; delimiters at the edges, runs of delimiters, multi-byte and edited text are never split.",
 [NS], [dict(name="Split", where=NS)], ["Split pieces: Get, GetOriginal, OriginalOffsets, alignments"])
# ---------------------------------------------------------------- patterns
prop("S01", "Every split pattern covers the whole text contiguously",
 "For every kind of pattern (character, character predicate, literal string incl. the empty one, standard regexp, backtracking regexp with any options, inverted) and every UTF-8 text, the captures are ordered, contiguous, start at 0, end at the byte length of the text, and have bounds on character boundaries. The empty text yields exactly one empty capture flagged as no match (a match once inverted).",
 ["inputs","configurations"], "all texts and all patterns of the six kinds",
 "Tests match a few short strings, nearly all ASCII; coverage can break at edges, with empty matches, with multi-byte text or with pattern options.",
 ["splitpattern/splitpattern.go","splitpattern/func.go","splitpattern/rune.go","splitpattern/string.go","splitpattern/regexp.go","splitpattern/regexp2.go","splitpattern/invertedpattern.go"],
 [dict(name="FindMatches MUST cover the whole string with contiguous ordered slices", where="splitpattern/splitpattern.go")], ["FindMatches"])
prop("S02", "Split patterns match exactly what they describe",
 "A character or predicate pattern flags exactly the accepted characters, each alone; a literal pattern flags exactly its leftmost non-overlapping occurrences, with special characters taken literally; a regexp pattern flags exactly the spans its engine matches, in bytes; everything between two matches is one unmatched capture. An inverted pattern has the same captures with every flag negated, and inverting twice is the identity.",
 ["inputs","configurations"], "all texts and patterns of the six kinds",
 "Tests enumerate about twenty text/pattern pairs; byte/rune index confusion and dropped trailing segments need particular multi-byte layouts.",
 ["splitpattern/func.go","splitpattern/rune.go","splitpattern/string.go","splitpattern/regexp.go","splitpattern/regexp2.go","splitpattern/invertedpattern.go"],
 [dict(name="FindMatches of each pattern kind", where="splitpattern/")], ["FindMatches"])
# ---------------------------------------------------------------- pre-tokenized strings
prop("P01", "Pre-tokenized text evolves split by split and freezes tokenized splits",
 "Through any history of splitting, normalizing and tokenizing, each step is applied once, in order and with its position, to exactly the splits that have no tokens yet; a split with attached tokens is never split, normalized or tokenized again and keeps its position and tokens. Splitting replaces each split in place by the non-empty results in order, dropping empty ones.",
 ["histories","inputs"], "all histories of split/normalize/tokenize steps with all results (several, none, empty, with tokens attached, empty token lists)",
 "The package has no tests of its own; pre-tokenizer tests run one or two splits on fresh text and never attach tokens.",
 [PTS, "pretokenizedstring/split.go"], [dict(name="Split/Normalize/Tokenize skip splits with Tokens", where=PTS)],
 ["callback calls, GetOriginalByteSplits, Splits"], [dict(name="splits", meaning="ordered list of pieces and optional tokens", where=PTS)])
prop("P02", "A failing step reports its error and leaves the split list consistent",
 "If the callback of a split, normalize or tokenize step fails at any position, the step returns that same error, invokes no further callback, and a failing split leaves the list of splits as it was. Splits processed before the failure keep their tokens, those after it stay untouched, and repeating the step afterwards resumes exactly with the splits that still have no tokens.",
 ["fault_sequences","histories"], "a failure injected at every callback position of every step in every history",
 "No test ever makes a callback fail.",
 [PTS, "pretokenizers/"], [dict(name="early return before assigning splits; per-split token attachment", where=PTS)],
 ["returned error, callback trace, splits after the failure"])
prop("P03", "Split views report correct offsets in both referentials",
 "At any point of any history, the original view lists for each split its normalized text, the range of the root text it was cut from, and its tokens; the normalized view lists the same texts with contiguous offsets that start at 0 and accumulate their byte lengths. Both views list all the splits in order and reading them changes nothing.",
 ["histories","inputs"], "all split/normalize/tokenize histories over all texts",
 "Pre-tokenizer tests look at views of a few fresh ASCII sentences, never with tokens attached or after normalizing edits.",
 [PTS], [dict(name="GetOriginalByteSplits/GetNormalizedByteSplits", where=PTS)], ["the two views"])
prop("P04", "Building an encoding keeps every token and maps offsets to the original",
 "An encoding built from a list of tokens lists them unchanged. An encoding of a pre-tokenized text can be built exactly when every split has been tokenized (no splits at all give an empty encoding); otherwise an error is returned. It lists all tokens of all splits in order with parallel fields of equal length: id, value, given type id, the given word index or else the position of the split, attention 1, special 0, no overflow, and for each non-empty token the range of the root text its normalized span comes from, or the token's own offsets when its span lies outside its split.",
 ["histories","inputs"], "all splits/edits/token lists, word indexes given or not, type ids",
 "No test builds an encoding.",
 [PTS, "encodings/encodings.go"], [dict(name="IntoEncoding, EncodingFromEncodableTokens", where=PTS)], ["Encoding fields, Len, IsEmpty"])
# ---------------------------------------------------------------- pre-tokenizers
prop("T01", "Delimiter pre-tokenizers cut exactly at their delimiters",
 "For every UTF-8 text: the white-space splitter yields the maximal runs without Unicode white space; the character-delimiter one the runs between occurrences of its character; the BERT one splits those white-space-free runs further so that each Unicode punctuation character stands alone; the word one yields the maximal runs of word characters and of other non-space characters (or the matches of the custom expression). Nothing else is lost or added, and each piece's offsets locate exactly that piece in the original text.",
 ["inputs"], "all UTF-8 texts, every code point as a delimiter or non-delimiter",
 "Tests run one to three sentences per pre-tokenizer; multi-byte white space, punctuation at the edges, runs and per-code-point classes are not covered.",
 ["pretokenizers/whitespacesplitpretokenizer/whitespacesplitpretokenizer.go","pretokenizers/bertpretokenizer/bertpretokenizer.go","pretokenizers/runedelimiterpretokenizer/runedelimiterpretokenizer.go","pretokenizers/whitespacepretokenizer/whitespacepretokenizer.go"],
 [dict(name="PreTokenize of each pre-tokenizer", where="pretokenizers/")], ["GetOriginalByteSplits, GetNormalizedByteSplits"])
prop("T02", "Byte-level pre-tokenization is lossless and aligned",
 "For every UTF-8 text, mapping the output characters back through the fixed one-to-one byte alphabet (printable bytes stand for themselves, the others for U+0100 onwards in byte order) and joining the pieces gives exactly the text, preceded by one space when prefixing is enabled and the text is non-empty and does not start with white space. Pieces are exactly the matches and gaps of the splitting expression (by default: contractions, optionally space-led letter, number and symbol runs, white-space runs giving up their last space to a following word), and every output character is aligned with the whole original character its byte belongs to.",
 ["inputs","configurations"], "all texts, all 256 byte values, all code points, prefixing on/off, default and custom expressions",
 "Tests compare four ASCII sentences and one three-byte character; byte alphabet and alignment must be right for every byte and every width.",
 ["pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go"], [dict(name="PreTokenize, byteToRune, DefaultSplittingRegexp", where="pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go")],
 ["GetOriginalByteSplits, per-character alignments"])
prop("T03", "Meta-space pre-tokenization is reversible",
 "For every text, the joined pieces equal the text with every plain space replaced by the meta character, preceded by one meta character when prefixing is enabled, the text is non-empty and it starts neither with a plain space nor with the meta character. (Before a text that begins with other white space that prefix may be left out, depending on that first character alone.) Each meta character starts a new piece (so only the first piece can lack one), no other character does, and each piece's offsets locate in the original the span it comes from: pieces cover the original text in order without overlap.",
 ["inputs","configurations"], "all texts, meta characters of every width, prefixing on/off",
 "Tests use two sentences with inner spaces only; leading spaces, literal meta characters, multi-byte text and other meta characters are not covered.",
 ["pretokenizers/metaspacepretokenizer/metaspacepretokenizer.go", NS], [dict(name="PreTokenize: Prepend, Replace, Split merged-with-next", where="pretokenizers/metaspacepretokenizer/metaspacepretokenizer.go")],
 ["GetOriginalByteSplits, GetNormalizedByteSplits"])
prop("T04", "Chained pre-tokenizers compose on each other's splits",
 "Running several pre-tokenizers one after the other on the same text, also after normalizers, gives exactly what running each of them on every split of the previous result gives; splits already tokenized pass through unchanged. Offsets stay relative to the root original text at every stage: each split's reported range holds exactly its original text there, and ranges are in order.",
 ["histories","inputs"], "all sequences of normalizers and pre-tokenizers up to the bound over all texts",
 "No test chains two pre-tokenizers or pre-tokenizes normalized text.",
 ["pretokenizers/", PTS, NS], [dict(name="PreTokenizedString.Split over existing splits, originalShift", where=PTS)], ["GetOriginalByteSplits"])
# ---------------------------------------------------------------- normalizers
prop("Z01", "BERT normalization classifies every character correctly",
 "With each combination of its four switches, the BERT normalizer yields for every text: cleaning removes NUL, the replacement character and control/other characters except tab, newline and return, and turns every white-space character into a plain space; CJK handling puts one space on each side of every ideograph of the CJK unified blocks (base, extensions A-E, compatibility) and of no other character; accent stripping removes exactly the non-spacing marks; lowercasing maps each character. The steps apply in that order and every output character stays aligned with the character it came from.",
 ["inputs","configurations"], "all code points, all short texts, all 16 switch combinations",
 "Tests normalize one sentence per switch; class boundaries across the Unicode range and alignment are not observed.",
 ["normalizers/bertnormalizer/bertnormalizer.go", NS], [dict(name="cleanText, handleChineseChars, stripAccents, ToLower", where="normalizers/bertnormalizer/bertnormalizer.go")],
 ["Get, per-byte alignments"])
prop("Z02", "Strip and lowercase normalizers do exactly their edit",
 "The strip normalizer removes exactly the leading and/or trailing Unicode white space its two switches select, and nothing when both are off; the lowercase normalizer maps each character to its simple Unicode lower case. Inner text is untouched, the original text stays available and the remaining characters keep their sources.",
 ["inputs","configurations"], "all texts, all code points, all switch combinations",
 "Tests use ASCII spaces and letters; multi-byte white space and width-changing case pairs are not covered.",
 ["normalizers/stripnormalizer/stripnormalizer.go","normalizers/lowercasenormalizer/lowercasenormalizer.go", NS], [dict(name="TrimLeftRight, ToLower", where=NS)],
 ["Get, per-byte alignments"])
prop("Z03", "A normalizer sequence applies its members in order and stops at the first error",
 "A sequence normalizer runs each member exactly once, in the given order, each on the result of the previous one, and its result equals running the members by hand, also when sequences are nested or empty. If a member fails, exactly that error is returned, no later member runs, and the text is as the earlier members left it.",
 ["histories","fault_sequences"], "all member sequences up to the bound, a failure injected at every position",
 "Tests run one two-member sequence and one failure.",
 ["normalizers/sequencenormalizer/sequencenormalizer.go"], [dict(name="Normalize loop", where="normalizers/sequencenormalizer/sequencenormalizer.go")], ["call trace, error, Get"])
# ---------------------------------------------------------------- models
prop("M01", "WordPiece is greedy longest-match-first over characters",
 "For every vocabulary, unknown token, continuation prefix and length limit, a word of at most the limit in characters is segmented from the left by repeatedly taking the longest vocabulary entry that matches the remaining characters (with the continuation prefix except at the start); ids and values are those entries and offsets tile the word in bytes. If some position has no match or the word is longer than the limit, the result is the single unknown token covering the whole word, or the out-of-vocabulary error when the unknown token has no id; the empty word has no tokens.",
 ["inputs","configurations"], "all vocabularies and words over any alphabet incl. multi-byte characters, all prefixes and limits",
 "Tests tokenize six ASCII words with one vocabulary; back-off over multi-byte characters, limits in characters vs bytes and prefix interplay are untested.",
 ["models/wordpiecemodel/wordpiecemodel.go"], [dict(name="Tokenize back-off loop", where="models/wordpiecemodel/wordpiecemodel.go")], ["Tokenize"])
prop("M02", "BPE applies merges in rank order, leftmost first",
 "Without dropout, for every vocabulary, merge table with distinct ranks and word, the tokens are exactly those obtained by starting from single characters and repeatedly merging, among all adjacent pairs present in the merge table, the pair of lowest rank at its leftmost position, until no adjacent pair is mergeable. Offsets tile the word in bytes and every token's id, value and offsets agree.",
 ["inputs","configurations"], "all merge tables over small alphabets and all words up to the bound, incl. overlapping, nested and repeated merges",
 "Tests tokenize one word with eight merges; the priority queue, stale entries and neighbour links only matter in overlapping and re-merging patterns.",
 ["models/bpemodel/bpemodel.go","models/bpemodel/word.go","models/bpemodel/wordmerge.go"], [dict(name="Word.MergeAll queue with stale-entry check; WordMergeHeap order", where="models/bpemodel/word.go")],
 ["Tokenize"], [dict(name="WordMergeHeap", meaning="pending merges ordered by rank then position", where="models/bpemodel/wordmerge.go")])
prop("M03", "BPE handles unknown characters, prefix and suffix as configured",
 "Before merging, each character is looked up with the continuation prefix unless it is the first one and with the end-of-word suffix if it is the last one; a character not in the vocabulary becomes the unknown token, consecutive ones being fused into one token when fusion is on. Offsets are byte ranges of the word that tile it completely and locate each token's characters; an unknown token that is configured but absent from the vocabulary is an error, and the empty word has no tokens.",
 ["inputs","configurations"], "all words mixing known and unknown characters of every width, all option combinations",
 "Tests never configure an unknown token, fusion, a prefix or a suffix.",
 ["models/bpemodel/bpemodel.go"], [dict(name="mergeWord, wordToTokens", where="models/bpemodel/bpemodel.go")], ["Tokenize"])
prop("M04", "BPE dropout yields only legal segmentations for every random outcome",
 "With dropout strictly between 0 and 1, for every sequence of random outcomes the tokens still tile the word and are reachable from its characters by merges of the table; if no merge is ever dropped the result is the deterministic one, and if every merge is dropped, or the probability is 1, no merge is applied. Tokenizing always terminates.",
 ["inputs","schedules","configurations"], "all outcome sequences of the random source, all small words and merge tables",
 "The existing test draws one random segmentation of one word and only checks the number of tokens.",
 ["models/bpemodel/word.go","models/bpemodel/bpemodel.go"], [dict(name="MergeAll skip list", where="models/bpemodel/word.go")], ["Tokenize under a controlled random source"])
prop("M05", "Loading a merge table is exact or fails",
 "A merge file loads to exactly the table its lines describe: ranks number the merge lines from 0 in order (version lines and only they are skipped and not counted), each pair maps to the id of the joined term with the configured prefix length cut from the right part. A line that is not two space-separated terms, a term or joined term missing from the vocabulary, or an unreadable file gives an error naming the 1-based line where there is one, never a panic or a partial table; a file cut at any byte loads as if that were all of it.",
 ["inputs","crash_points","configurations"], "all short files over a line alphabet, every truncation point, every prefix length",
 "Tests load one valid file with two prefix lengths; no malformed, truncated or missing file is tried.",
 ["models/bpemodel/mergemap.go"], [dict(name="MergeMapFromFile", where="models/bpemodel/mergemap.go")], ["MergeMapFromFile result/error, MergeMap.Get"])
prop("M06", "A vocabulary stays a consistent two-way mapping",
 "After any history of adding terms, from an empty vocabulary or from one loaded from a file with distinct ids, every term looks up to an id that looks up to that term, no two terms share an id, existing terms keep their ids, a new term gets an id not in use (the current size whenever that is free), and size counts the distinct terms. Loading yields exactly the file's pairs or an error (never a panic) for a missing, truncated or ill-typed file. A file that gives several terms one id is refused or loaded with every pair, that id looking up to one of them.",
 ["histories","crash_points","inputs"], "all histories of additions (with repeats) after loading any small vocabulary; every truncation point of the file",
 "Tests load one three-term file and never add a term to it; AddTerm has no test of repeats or of non-contiguous ids.",
 ["vocabulary/vocabulary.go"], [dict(name="AddTerm, FromJSONFile, GetID, GetString, Size", where="vocabulary/vocabulary.go")], ["GetID, GetString, Size"])
prop("M07", "A word of symbols merges correctly however it was built up",
 "After any history of adding (non-empty) symbols to a word and merging it with any merge tables, the word holds exactly the symbols that repeatedly merging the adjacent pair of lowest rank, leftmost first, gives at each merging step: ids of the table, byte lengths that are the sums of the merged ones, in order; every symbol's previous and next are its neighbours in the word (none at the ends). Merging with dropout 1 changes nothing, the table is not modified, and nothing panics or runs forever. The exported merge queue yields its entries by rank, then position, after any history of pushes and pops.",
 ["histories","inputs"], "all histories of additions and merges on one word, all merge tables",
 "Tests add three symbols to one word and never merge a word directly, let alone twice.",
 ["models/bpemodel/word.go","models/bpemodel/wordmerge.go"], [dict(name="Word.Add, Word.MergeAll, merge queue", where="models/bpemodel/word.go")], ["Word.Len, the symbols' ID, Length, Prev, Next"])
prop("M08", "The word cache never gives a wrong word",
 "After any history of setting words under keys, singly or several at once, looking up a key in the word cache finds nothing or exactly a word that was set under that very key; a cache of capacity zero never finds anything, no more words are found than the (positive) capacity, and looking up several keys gives one result per key in order. Nothing panics. (The cache may miss at any time; at present it always does.)",
 ["histories","configurations"], "all histories of settings and look-ups over keys and capacities",
 "The cache has no tests.",
 ["models/bpemodel/wordcache.go"], [dict(name="WordCache Get/Set/GetValues/SetValues", where="models/bpemodel/wordcache.go")], ["Get, GetValues"])
# ---------------------------------------------------------------- utils
prop("U01", "Byte offsets convert to character offsets exactly",
 "For every UTF-8 text and every character-aligned byte range of it, converting to character offsets gives the number of characters before the start and before the end, including ranges that are empty or end at the end of the text; the empty text gives (0,0).",
 ["inputs"], "all texts and all character-aligned byte ranges",
 "The converter has no tests.",
 ["strutils/strutils.go"], [dict(name="BytesToRuneOffsetConverter", where="strutils/strutils.go")], ["Convert"])
prop("U02", "Character boundary detection is exact",
 "For every UTF-8 text and every integer index, an index is reported as a character boundary exactly when it is 0, the length of the text, or the first byte of a character; indexes outside the text are never boundaries.",
 ["inputs"], "all texts with characters of every width, all code points, all indexes in and out of range",
 "The test checks seven indexes of one string.",
 ["strutils/strutils.go"], [dict(name="IsRuneBoundary", where="strutils/strutils.go")], ["IsRuneBoundary"])
# ---------------------------------------------------------------- system
prop("Y01", "End-to-end token offsets point at the source text",
 "Normalizing, pre-tokenizing, tokenizing with a word-piece or byte-pair model and building the encoding gives, for every text, exactly the tokens the model gives for each pre-token of the normalized text, in order, with word indexes numbering the pre-tokens. Each token's offsets are a character-aligned range of the original text, inside it and in order, covering exactly the original characters from which the token's normalized characters derive.",
 ["inputs","configurations"], "all short texts through all combinations of normalizers, pre-tokenizers and models",
 "No test runs more than one stage together.",
 [PTS, NS, "pretokenizers/", "normalizers/", "models/", "encodings/encodings.go"],
 [dict(name="offset composition: token to split to original", where=PTS)], ["Encoding"])
prop("Y02", "Results never depend on what a component processed before",
 "Using one model (with any cache capacity), pre-tokenizer, normalizer or pattern object for any history of inputs gives for each input exactly the result a fresh object gives, results handed out earlier never change afterwards, modifying a returned result does not affect later results, and inputs handed in are not modified.",
 ["histories","inputs"], "all input histories up to the bound on every shared component, including failing inputs and repeated ones",
 "Tests use each component object once or on independent inputs and never re-check earlier results.",
 ["models/bpemodel/bpemodel.go","models/bpemodel/wordcache.go","models/wordpiecemodel/wordpiecemodel.go","splitpattern/","pretokenizers/","normalizers/"],
 [dict(name="stateless components; word cache keyed by the whole word", where="models/bpemodel/wordcache.go")], ["results of every call, earlier results re-read"],
 [dict(name="WordCache", meaning="optional per-model cache of merged words", where="models/bpemodel/wordcache.go")])
prop("Y03", "Shared components can be used from several goroutines at once",
 "When several goroutines use the same model, vocabulary, pre-tokenizer, normalizer, pattern or offset converter at the same time, each on its own text, every interleaving gives each of them exactly the result it gets alone; there are no data races, and nothing panics or deadlocks.",
 ["schedules","inputs"], "all interleavings of two concurrent calls on a shared component within the preemption bound",
 "Existing tests never share a component between goroutines; a lost race shows only in particular interleavings.",
 ["models/bpemodel/","models/wordpiecemodel/","splitpattern/","pretokenizers/","normalizers/","normalizedstring/","pretokenizedstring/","strutils/","vocabulary/"],
 [dict(name="no shared mutable state in components", where="whole library")], ["results per goroutine under a controlled scheduler"])

def dump_props():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            a = dict(files=p["files"], mechanism=p["mech"])
            if p["observe"]: a["observe_at"] = p["observe"]
            if p["state"]: a["state"] = p["state"]
            a["hook_needed"] = None
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["qtext"]),
                     why_tests_cant=p["why"], anchors=a)
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(d, ensure_ascii=False) + "\n")

if __name__ == "__main__":
    dump_props()
    try:
        sys.path.insert(0, os.path.join(HERE, "tools"))
        import manifest
        manifest.dump(P, HERE)
    except ImportError:
        pass
    print(len(P), "properties")
