From 96cae9289ecb5a802aaa8d68c8e1efd71cf9c19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:15 +0000
Subject: [PATCH 01/19] fix: TransformRange treats initialOffset as a number of
 characters, not bytes

Removing a leading multi-byte character (Filter, Trim, Replace) sliced the
text inside a character and panicked or corrupted text and alignments.
---
 normalizedstring/normalizedstring.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index fb82a95..40a3072 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -163,8 +163,9 @@ func (ns *NormalizedString) TransformRange(
 	// compute the change in byte sizes along the way.
 	replacedNormalizedString := ns.normalized[normalizedRange.Start():normalizedRange.End()]
 
-	initialRemoved := len(replacedNormalizedString[:initialOffset])
-	replacedNormalizedRunes := []rune(replacedNormalizedString[initialOffset:])
+	replacedNormalizedRunes := []rune(replacedNormalizedString)
+	initialRemoved := len(string(replacedNormalizedRunes[:initialOffset]))
+	replacedNormalizedRunes = replacedNormalizedRunes[initialOffset:]
 
 	offset := initialRemoved + normalizedRange.Start()
 	alignments := make([]AlignmentRange, 0, normalizedRange.Len())
-- 
2.43.0


From d27e8f1fdb857014cce5e8131b333595e389a478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:16 +0000
Subject: [PATCH 02/19] fix: Append addresses the last character by its byte
 index

The rune index was used as a byte index, so appending to text with any
multi-byte character panicked or duplicated text.
---
 normalizedstring/normalizedstring.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index 40a3072..46b6ddd 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -472,8 +472,8 @@ func (ns *NormalizedString) Append(s string) {
 		transformations = append(transformations, RuneChange{Rune: r, Change: 1})
 	}
 
-	// FIXME: it's probably wrong to pass the rune index, instead of byte index
-	ns.TransformRange(NewNormalizedRange(lastRuneIndex, ns.Len()), transformations, 0)
+	lastRuneByteIndex := ns.Len() - len(string(lastRune))
+	ns.TransformRange(NewNormalizedRange(lastRuneByteIndex, ns.Len()), transformations, 0)
 }
 
 // SplitDelimiterBehavior is used by NormalizedString.Split to define the
-- 
2.43.0


From 242854382aeee4b7a5ac50d7b1a9d1bdb3873047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:16 +0000
Subject: [PATCH 03/19] fix: Prepend of an empty string keeps the first
 character's alignment

---
 normalizedstring/normalizedstring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index 46b6ddd..b139510 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -431,7 +431,7 @@ func (ns *NormalizedString) CoerceRangeToOriginal(r Range) (OriginalRange, bool)
 //
 // FIXME: Prepend does nothing if the normalized string is empty
 func (ns *NormalizedString) Prepend(s string) {
-	if len(ns.normalized) == 0 {
+	if len(ns.normalized) == 0 || len(s) == 0 {
 		return
 	}
 
-- 
2.43.0


From 7a045e08861733bb7e31bbe6c8ac96783dc9fb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:28 +0000
Subject: [PATCH 04/19] fix: OriginalAlignments no longer panics when there is
 no normalized text

---
 normalizedstring/normalizedstring.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index b139510..ae12d70 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -243,6 +243,11 @@ func (ns *NormalizedString) OriginalAlignments() []AlignmentRange {
 	// (offset, length) are in originalAlignments
 	originalAlignments := make([]AlignmentRange, 0, len(ns.original))
 
+	if len(ns.alignments) == 0 {
+		// Everything was removed: each byte is at the start of an empty string
+		return originalAlignments[:len(ns.original)]
+	}
+
 	// Eventual gap before first group
 
 	if start := ns.alignments[0].start; start > 0 {
-- 
2.43.0


From c2df352b89802ad0821b76c964e1b1e31f12b2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:28 +0000
Subject: [PATCH 05/19] fix: ranges reaching out of the text are reported as
 failures

GetRange, GetOriginalRange and CoerceRangeToOriginal panicked on them,
although their documentation promises an unsuccessful status.
---
 normalizedstring/normalizedstring.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index ae12d70..bfc378f 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -324,7 +324,7 @@ func (ns *NormalizedString) OriginalAlignments() []AlignmentRange {
 // whether the operation is successful or not.
 func (ns *NormalizedString) GetRange(rng Range) (string, bool) {
 	nr, ok := ns.CoerceRangeToNormalized(rng)
-	if !ok {
+	if !ok || nr.Start() < 0 || nr.Start() > nr.End() || nr.End() > len(ns.normalized) {
 		return "", false
 	}
 	return ns.normalized[nr.Start():nr.End()], true
@@ -334,7 +334,7 @@ func (ns *NormalizedString) GetRange(rng Range) (string, bool) {
 // reports whether the operation is successful or not.
 func (ns *NormalizedString) GetOriginalRange(rng Range) (string, bool) {
 	or, ok := ns.CoerceRangeToOriginal(rng)
-	if !ok {
+	if !ok || or.Start() < 0 || or.Start() > or.End() || or.End() > len(ns.original) {
 		return "", false
 	}
 	return ns.original[or.Start():or.End()], true
@@ -426,6 +426,11 @@ func (ns *NormalizedString) CoerceRangeToOriginal(r Range) (OriginalRange, bool)
 		return NewOriginalRange(0, ns.OriginalLen()), true
 	}
 
+	// If we target something out of range, return invalid status
+	if r.Start() < 0 || r.End() > len(ns.alignments) {
+		return NewOriginalRange(0, 0), false
+	}
+
 	alignments := ns.alignments[r.Start():r.End()]
 
 	// Expand alignments, returning the range covered by this slice
-- 
2.43.0


From c5f2f86f1b064f273a7e6b8b224690a1e039f088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:10 +0000
Subject: [PATCH 06/19] fix: Slice by an empty original range past the
 normalized text no longer panics

---
 normalizedstring/normalizedstring.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index bfc378f..5a78b54 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -665,7 +665,10 @@ func (ns *NormalizedString) Slice(rng Range) (*NormalizedString, bool) {
 	nShift := originalRange.Start()
 
 	original, _ := ns.GetOriginalRange(rng)
-	normalized, _ := ns.GetRange(rng)
+	normalized, normalizedOk := ns.GetRange(rng)
+	if !normalizedOk {
+		return nil, false
+	}
 
 	alignments := make([]AlignmentRange, normalizedRange.Len())
 
-- 
2.43.0


From c72b532ae1cfdc91aff24e0132935de2ab646120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:40 +0000
Subject: [PATCH 07/19] fix: the empty string pattern covers the whole text in
 bytes

It reported the number of characters as the end byte offset, so splitting
multi-byte text lost its tail or cut a character.
---
 splitpattern/string.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/splitpattern/string.go b/splitpattern/string.go
index 808db8e..3a1be98 100644
--- a/splitpattern/string.go
+++ b/splitpattern/string.go
@@ -28,8 +28,7 @@ func (sp *StringSplitPattern) FindMatches(s string) ([]Capture, error) {
 	if sp.r == nil {
 		// If we try to find the matches with an empty string, just don't match anything
 		return []Capture{{
-			// FIXME: is len of runes (and not bytes) correct?
-			Offsets: strutils.ByteOffsets{Start: 0, End: len([]rune(s))},
+			Offsets: strutils.ByteOffsets{Start: 0, End: len(s)},
 			IsMatch: false,
 		}}, nil
 	}
-- 
2.43.0


From f7742143eaa556a3378fee8be4a7a36ce75bbb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:12 +0000
Subject: [PATCH 08/19] fix: right-to-left regexp2 patterns yield ordered
 captures

Their matches come from the end of the text backwards and were listed in
that order, with reversed and overlapping gaps between them.
---
 splitpattern/regexp2.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/splitpattern/regexp2.go b/splitpattern/regexp2.go
index 909fa3f..409063f 100644
--- a/splitpattern/regexp2.go
+++ b/splitpattern/regexp2.go
@@ -36,7 +36,22 @@ func (sp *Regexp2SplitPattern) FindMatches(s string) ([]Capture, error) {
 		return nil, err
 	}
 
+	matches := make([]*regexp2.Match, 0)
 	for match != nil {
+		matches = append(matches, match)
+		match, err = sp.r.FindNextMatch(match)
+		if err != nil {
+			return nil, err
+		}
+	}
+	if sp.r.RightToLeft() {
+		// The matches were found backwards from the end of the string
+		for i, j := 0, len(matches)-1; i < j; i, j = i+1, j-1 {
+			matches[i], matches[j] = matches[j], matches[i]
+		}
+	}
+
+	for _, match := range matches {
 		startByte := len(string(runes[:match.Index]))
 		endByte := startByte + len(match.String())
 
@@ -51,11 +66,6 @@ func (sp *Regexp2SplitPattern) FindMatches(s string) ([]Capture, error) {
 			IsMatch: true,
 		})
 		prev = endByte
-
-		match, err = sp.r.FindNextMatch(match)
-		if err != nil {
-			return nil, err
-		}
 	}
 
 	if prev != len(s) {
-- 
2.43.0


From d7ba15920bb4993f809d1e1704bf50504ae52715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:45 +0000
Subject: [PATCH 09/19] fix: InvertedPattern leaves the captures of the inner
 pattern unmodified

It flipped them in place, so a pattern that keeps the captures it returns
(for example to reuse them) alternated between inverted and plain results.
---
 splitpattern/invertedpattern.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/splitpattern/invertedpattern.go b/splitpattern/invertedpattern.go
index b99919f..97bcaae 100644
--- a/splitpattern/invertedpattern.go
+++ b/splitpattern/invertedpattern.go
@@ -19,8 +19,9 @@ func (ip *InvertedPattern) FindMatches(s string) ([]Capture, error) {
 	if err != nil {
 		return nil, err
 	}
+	inverted := make([]Capture, len(captures))
 	for i, capture := range captures {
-		captures[i].IsMatch = !capture.IsMatch
+		inverted[i] = Capture{Offsets: capture.Offsets, IsMatch: !capture.IsMatch}
 	}
-	return captures, nil
+	return inverted, nil
 }
-- 
2.43.0


From f670219b72ffb2c686cd16de22c59e6fbad84823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 10/19] fix: Metaspace replaces spaces before deciding on the
 prefix

A text starting with a space already starts with the meta-character once its
spaces are replaced, so prefixing it again doubled the leading separator,
against the documented behaviour.
---
 .../metaspacepretokenizer/metaspacepretokenizer.go          | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pretokenizers/metaspacepretokenizer/metaspacepretokenizer.go b/pretokenizers/metaspacepretokenizer/metaspacepretokenizer.go
index de5ccb1..9bac292 100644
--- a/pretokenizers/metaspacepretokenizer/metaspacepretokenizer.go
+++ b/pretokenizers/metaspacepretokenizer/metaspacepretokenizer.go
@@ -58,13 +58,13 @@ func (m *MetaSpacePreTokenizer) PreTokenize(pts *pretokenizedstring.PreTokenized
 	splittingPattern := splitpattern.FromRune(m.replacement)
 	return pts.Split(
 		func(_ int, ns *normalizedstring.NormalizedString) ([]pretokenizedstring.Split, error) {
-			if m.prefixSpaceEnabled && !strings.HasPrefix(ns.Get(), m.strReplacement) {
-				ns.Prepend(m.strReplacement)
-			}
 			err := ns.Replace(splitpattern.FromRune(' '), m.strReplacement)
 			if err != nil {
 				return nil, err
 			}
+			if m.prefixSpaceEnabled && !strings.HasPrefix(ns.Get(), m.strReplacement) {
+				ns.Prepend(m.strReplacement)
+			}
 			nss, err := ns.Split(splittingPattern, normalizedstring.SplitDelimiterMergedWithNext)
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 09ba1f4ec4a306e77ab472e82a561bb231df03fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 11/19] fix: the CJK Extension E block starts at U+2B820

---
 normalizers/bertnormalizer/bertnormalizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalizers/bertnormalizer/bertnormalizer.go b/normalizers/bertnormalizer/bertnormalizer.go
index 3ff4501..60df23b 100644
--- a/normalizers/bertnormalizer/bertnormalizer.go
+++ b/normalizers/bertnormalizer/bertnormalizer.go
@@ -118,7 +118,7 @@ var chineseCharacters = &unicode.RangeTable{
 		{0x20000, 0x2a6df, 1},
 		{0x2a700, 0x2b73f, 1},
 		{0x2b740, 0x2b81f, 1},
-		{0x2b920, 0x2ceaf, 1},
+		{0x2b820, 0x2ceaf, 1},
 		{0x2f800, 0x2fa1f, 1},
 	},
 }
-- 
2.43.0


From 5c53b509ccfc65aae35dfbdcdacbee2130ea1b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 12/19] fix: BytesToRuneOffsetConverter yields rune indexes

It recorded the byte index of each rune instead of its position in runes, and
panicked on an empty range at the end of the text.
---
 strutils/strutils.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/strutils/strutils.go b/strutils/strutils.go
index df27192..8a4f6e1 100644
--- a/strutils/strutils.go
+++ b/strutils/strutils.go
@@ -52,10 +52,12 @@ type BytesToRuneOffsetConverter struct {
 
 func NewBytesToRuneOffsetConverter(sequence string) *BytesToRuneOffsetConverter {
 	mapping := make([]int, 0, len(sequence))
-	for runeIndex, r := range sequence {
+	runeIndex := 0
+	for _, r := range sequence {
 		for range []byte(string(r)) {
 			mapping = append(mapping, runeIndex)
 		}
+		runeIndex++
 	}
 	return &BytesToRuneOffsetConverter{mapping: mapping}
 }
@@ -65,7 +67,12 @@ func (b *BytesToRuneOffsetConverter) Convert(offsets ByteOffsets) RuneOffsets {
 		return RuneOffsets{Start: 0, End: 0}
 	}
 
-	start := b.mapping[offsets.Start]
+	var start int
+	if offsets.Start == len(b.mapping) {
+		start = b.mapping[offsets.Start-1] + 1
+	} else {
+		start = b.mapping[offsets.Start]
+	}
 
 	var end int
 	if offsets.End == len(b.mapping) {
-- 
2.43.0


From cca4c099bc581d017a708cc69c77ed9386342fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:10 +0000
Subject: [PATCH 13/19] fix: WordPiece backs off by whole characters

The back-off step took the length of the last byte converted to a string, which
is not the size of the last character for characters of three bytes or more, so
that matching pieces were skipped.
---
 models/wordpiecemodel/wordpiecemodel.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/models/wordpiecemodel/wordpiecemodel.go b/models/wordpiecemodel/wordpiecemodel.go
index acda3c2..a1f717e 100644
--- a/models/wordpiecemodel/wordpiecemodel.go
+++ b/models/wordpiecemodel/wordpiecemodel.go
@@ -9,6 +9,7 @@ import (
 	"github.com/nlpodyssey/gotokenizers/models"
 	"github.com/nlpodyssey/gotokenizers/strutils"
 	"github.com/nlpodyssey/gotokenizers/vocabulary"
+	"unicode/utf8"
 )
 
 var ErrUnknownTokenOutOfVocabulary = fmt.Errorf("the provided unk token is out of vocabulary")
@@ -91,11 +92,8 @@ func (m *WordPieceModel) Tokenize(sequence string) ([]models.Token, error) {
 				break
 			}
 
-			if len(subStr) > 0 {
-				end -= len(string(subStr[len(subStr)-1]))
-			} else {
-				end--
-			}
+			_, size := utf8.DecodeLastRuneInString(sequence[start:end])
+			end -= size
 		}
 
 		if !hasCurToken {
-- 
2.43.0


From 09240660441c4de55c267a5cf809ebbb7a57d582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 14/19] fix: BPE adds the continuing subword prefix to all
 characters but the first

It was added to the first character of a word, and only to that one.
---
 models/bpemodel/bpemodel.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/bpemodel/bpemodel.go b/models/bpemodel/bpemodel.go
index 308f9fd..be9225b 100644
--- a/models/bpemodel/bpemodel.go
+++ b/models/bpemodel/bpemodel.go
@@ -139,7 +139,7 @@ func (m *BPEModel) mergeWord(w string) (*Word, error) {
 		s := string(r)
 		byteLen := len(s)
 
-		if i == 0 && m.hasContinuingSubwordPrefix() {
+		if i > 0 && m.hasContinuingSubwordPrefix() {
 			s = m.continuingSubwordPrefix + s
 		}
 		if i == lastRuneIndex && m.hasEndOfWordSuffix() {
-- 
2.43.0


From 3701ee7c2ec4fd18494b52466cde6cd9986337c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 15/19] fix: BPE does not apply an expired merge that yields
 the same symbol

An expired queue entry was taken for valid when another pair with the same
resulting ID had formed at its position in the meantime, applying that pair's
merge before its rank.
---
 models/bpemodel/word.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/bpemodel/word.go b/models/bpemodel/word.go
index c5f35e6..294c489 100644
--- a/models/bpemodel/word.go
+++ b/models/bpemodel/word.go
@@ -122,7 +122,7 @@ func (w *Word) MergeAll(merges *MergeMap, dropout float64) {
 		right := (*w)[nextPos]
 
 		// Make sure we are not processing an expired queue entry
-		if m, ok := merges.Get((*w)[top.Pos].ID, right.ID); !ok || m.ID != top.ID {
+		if m, ok := merges.Get((*w)[top.Pos].ID, right.ID); !ok || m != top.MergeValue {
 			continue
 		}
 
-- 
2.43.0


From 59781e6a699306926667385205463d971338b486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:25 +0000
Subject: [PATCH 16/19] fix: a right merge token shorter than the prefix is an
 error, not a panic

---
 models/bpemodel/mergemap.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/models/bpemodel/mergemap.go b/models/bpemodel/mergemap.go
index 498caf6..b0dde19 100644
--- a/models/bpemodel/mergemap.go
+++ b/models/bpemodel/mergemap.go
@@ -72,6 +72,9 @@ func MergeMapFromFile(
 			return nil, fmt.Errorf("line %d: right merge token is out of vocabulary", lineCount)
 		}
 
+		if len(terms[1]) < prefixLength {
+			return nil, fmt.Errorf("line %d: right merge token is shorter than the prefix", lineCount)
+		}
 		mergedTerm := fmt.Sprintf("%s%s", terms[0], terms[1][prefixLength:])
 		mergedID, mergedOK := vocab.GetID(mergedTerm)
 		if !mergedOK {
-- 
2.43.0


From 12dced7a6f7d69f1d615b7de6b52aac80cbb5b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:26 +0000
Subject: [PATCH 17/19] fix: AddTerm does not reuse the ID of another term

---
 vocabulary/vocabulary.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vocabulary/vocabulary.go b/vocabulary/vocabulary.go
index 4a8eaee..431351c 100644
--- a/vocabulary/vocabulary.go
+++ b/vocabulary/vocabulary.go
@@ -46,13 +46,17 @@ func FromJSONFile(filename string) (*Vocabulary, error) {
 
 // AddTerm adds a new term to the vocabulary.
 // If the term does not yet exist in the vocabulary, a new ID is associated to
-// it, corresponding to the current vocabulary size.
+// it, corresponding to the current vocabulary size, or to the first unused ID
+// after it if another term already has that ID.
 // Otherwise, if the string already exists, no insertion is performed.
 func (v *Vocabulary) AddTerm(term string) {
 	if _, ok := v.termToID[term]; ok {
 		return
 	}
 	id := v.Size()
+	for _, used := v.idToTerm[id]; used; _, used = v.idToTerm[id] {
+		id++
+	}
 	v.termToID[term] = id
 	v.idToTerm[id] = term
 }
-- 
2.43.0


From a9166ac42754a0e22dea55588e3997c0fd6442ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:27 +0000
Subject: [PATCH 18/19] fix: a vocabulary file with a null in place of the
 object or of an ID is an error

---
 vocabulary/vocabulary.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/vocabulary/vocabulary.go b/vocabulary/vocabulary.go
index 431351c..0dd3df5 100644
--- a/vocabulary/vocabulary.go
+++ b/vocabulary/vocabulary.go
@@ -6,6 +6,7 @@ package vocabulary
 
 import (
 	"encoding/json"
+	"fmt"
 	"io/ioutil"
 )
 
@@ -30,15 +31,23 @@ func FromJSONFile(filename string) (*Vocabulary, error) {
 		return nil, err
 	}
 
-	var termToID map[string]int
-	err = json.Unmarshal(rawData, &termToID)
+	var values map[string]*int
+	err = json.Unmarshal(rawData, &values)
 	if err != nil {
 		return nil, err
 	}
+	if values == nil {
+		return nil, fmt.Errorf("the vocabulary is null")
+	}
 
-	idToTerm := make(map[int]string, len(termToID))
-	for term, id := range termToID {
-		idToTerm[id] = term
+	termToID := make(map[string]int, len(values))
+	idToTerm := make(map[int]string, len(values))
+	for term, id := range values {
+		if id == nil {
+			return nil, fmt.Errorf("the ID of term %q is null", term)
+		}
+		termToID[term] = *id
+		idToTerm[*id] = term
 	}
 
 	return &Vocabulary{termToID: termToID, idToTerm: idToTerm}, nil
-- 
2.43.0


From 0d85088c37e6479d02f8cb87e901a8d7c351eb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:25 +0000
Subject: [PATCH 19/19] fix: MergeAll links the remaining symbols of a word to
 each other

---
 models/bpemodel/word.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/models/bpemodel/word.go b/models/bpemodel/word.go
index 294c489..c8c7081 100644
--- a/models/bpemodel/word.go
+++ b/models/bpemodel/word.go
@@ -162,6 +162,15 @@ func (w *Word) MergeAll(merges *MergeMap, dropout float64) {
 		}
 		i++
 	}
+
+	// The positions of the remaining symbols have changed: link them again
+	for i, symbol := range *w {
+		symbol.Prev = i - 1
+		symbol.Next = i + 1
+		if symbol.Next == w.Len() {
+			symbol.Next = -1
+		}
+	}
 }
 
 func (w *Word) removeSymbol(index int) {
-- 
2.43.0

