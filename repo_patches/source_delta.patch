From afb55d2abfa43354a08881447c9fd679baed6143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:13 +0000
Subject: [PATCH 01/17] fix: TransformRange counts initially removed items in
 characters, not bytes

---
 normalizedstring/normalizedstring.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index fb82a95..6c2c4ea 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -163,8 +163,10 @@ func (ns *NormalizedString) TransformRange(
 	// compute the change in byte sizes along the way.
 	replacedNormalizedString := ns.normalized[normalizedRange.Start():normalizedRange.End()]
 
-	initialRemoved := len(replacedNormalizedString[:initialOffset])
-	replacedNormalizedRunes := []rune(replacedNormalizedString[initialOffset:])
+	// initialOffset counts characters, while offsets are expressed in bytes
+	replacedNormalizedRunes := []rune(replacedNormalizedString)
+	initialRemoved := len(string(replacedNormalizedRunes[:initialOffset]))
+	replacedNormalizedRunes = replacedNormalizedRunes[initialOffset:]
 
 	offset := initialRemoved + normalizedRange.Start()
 	alignments := make([]AlignmentRange, 0, normalizedRange.Len())
-- 
2.43.0


From 60cd063750d2f4b36447d3feaffd4703a4b9e62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:14 +0000
Subject: [PATCH 02/17] fix: Append locates the last character by byte position

---
 normalizedstring/normalizedstring.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index 6c2c4ea..19dbd02 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -464,8 +464,8 @@ func (ns *NormalizedString) Append(s string) {
 	transformations := make([]RuneChange, 0, len(s)+1)
 
 	runes := []rune(ns.normalized)
-	lastRuneIndex := len(runes) - 1
-	lastRune := runes[lastRuneIndex]
+	lastRune := runes[len(runes)-1]
+	lastRuneStart := ns.Len() - len(string(lastRune))
 
 	transformations = append(transformations, RuneChange{Rune: lastRune, Change: 0})
 
@@ -473,8 +473,7 @@ func (ns *NormalizedString) Append(s string) {
 		transformations = append(transformations, RuneChange{Rune: r, Change: 1})
 	}
 
-	// FIXME: it's probably wrong to pass the rune index, instead of byte index
-	ns.TransformRange(NewNormalizedRange(lastRuneIndex, ns.Len()), transformations, 0)
+	ns.TransformRange(NewNormalizedRange(lastRuneStart, ns.Len()), transformations, 0)
 }
 
 // SplitDelimiterBehavior is used by NormalizedString.Split to define the
-- 
2.43.0


From b42f41de86c21dc2c367803c3fd3537148122060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:37 +0000
Subject: [PATCH 03/17] fix: prepending nothing leaves the alignment of the
 first character alone

---
 normalizedstring/normalizedstring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index 19dbd02..9cdf6ac 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -432,7 +432,7 @@ func (ns *NormalizedString) CoerceRangeToOriginal(r Range) (OriginalRange, bool)
 //
 // FIXME: Prepend does nothing if the normalized string is empty
 func (ns *NormalizedString) Prepend(s string) {
-	if len(ns.normalized) == 0 {
+	if len(ns.normalized) == 0 || len(s) == 0 {
 		return
 	}
 
-- 
2.43.0


From 0a34e569cbca1c152a3d3f6e14a40277a19d36fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:37 +0000
Subject: [PATCH 04/17] fix: the empty literal pattern covers the whole text in
 bytes

---
 splitpattern/string.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/splitpattern/string.go b/splitpattern/string.go
index 808db8e..3a1be98 100644
--- a/splitpattern/string.go
+++ b/splitpattern/string.go
@@ -28,8 +28,7 @@ func (sp *StringSplitPattern) FindMatches(s string) ([]Capture, error) {
 	if sp.r == nil {
 		// If we try to find the matches with an empty string, just don't match anything
 		return []Capture{{
-			// FIXME: is len of runes (and not bytes) correct?
-			Offsets: strutils.ByteOffsets{Start: 0, End: len([]rune(s))},
+			Offsets: strutils.ByteOffsets{Start: 0, End: len(s)},
 			IsMatch: false,
 		}}, nil
 	}
-- 
2.43.0


From 37a69410b25a259999f5aa628a2eb71c91367fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:38 +0000
Subject: [PATCH 05/17] fix: byte offsets convert to character counts, also at
 the end of the text

---
 strutils/strutils.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/strutils/strutils.go b/strutils/strutils.go
index df27192..e7e0b8e 100644
--- a/strutils/strutils.go
+++ b/strutils/strutils.go
@@ -51,28 +51,26 @@ type BytesToRuneOffsetConverter struct {
 }
 
 func NewBytesToRuneOffsetConverter(sequence string) *BytesToRuneOffsetConverter {
-	mapping := make([]int, 0, len(sequence))
-	for runeIndex, r := range sequence {
+	mapping := make([]int, 0, len(sequence)+1)
+	runeIndex := 0
+	for _, r := range sequence {
 		for range []byte(string(r)) {
 			mapping = append(mapping, runeIndex)
 		}
+		runeIndex++
 	}
+	// The position right after the last byte
+	mapping = append(mapping, runeIndex)
 	return &BytesToRuneOffsetConverter{mapping: mapping}
 }
 
 func (b *BytesToRuneOffsetConverter) Convert(offsets ByteOffsets) RuneOffsets {
-	if len(b.mapping) == 0 {
+	if len(b.mapping) == 1 {
 		return RuneOffsets{Start: 0, End: 0}
 	}
 
-	start := b.mapping[offsets.Start]
-
-	var end int
-	if offsets.End == len(b.mapping) {
-		end = b.mapping[offsets.End-1] + 1
-	} else {
-		end = b.mapping[offsets.End]
+	return RuneOffsets{
+		Start: b.mapping[offsets.Start],
+		End:   b.mapping[offsets.End],
 	}
-
-	return RuneOffsets{Start: start, End: end}
 }
-- 
2.43.0


From 3150cdb81fddd175ce2b997bfb8b883155488663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:39 +0000
Subject: [PATCH 06/17] fix: range conversions and lookups report failure
 outside the text instead of crashing

---
 normalizedstring/normalizedstring.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index 9cdf6ac..9687df0 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -320,7 +320,7 @@ func (ns *NormalizedString) OriginalAlignments() []AlignmentRange {
 // whether the operation is successful or not.
 func (ns *NormalizedString) GetRange(rng Range) (string, bool) {
 	nr, ok := ns.CoerceRangeToNormalized(rng)
-	if !ok {
+	if !ok || !isWithin(nr, len(ns.normalized)) {
 		return "", false
 	}
 	return ns.normalized[nr.Start():nr.End()], true
@@ -330,7 +330,7 @@ func (ns *NormalizedString) GetRange(rng Range) (string, bool) {
 // reports whether the operation is successful or not.
 func (ns *NormalizedString) GetOriginalRange(rng Range) (string, bool) {
 	or, ok := ns.CoerceRangeToOriginal(rng)
-	if !ok {
+	if !ok || !isWithin(or, len(ns.original)) {
 		return "", false
 	}
 	return ns.original[or.Start():or.End()], true
@@ -353,8 +353,8 @@ func (ns *NormalizedString) CoerceRangeToNormalized(r Range) (NormalizedRange, b
 		return NewNormalizedRange(r.Start(), r.End()), true
 	}
 
-	// If the target goes reverse, return invalid status
-	if r.Start() > r.End() {
+	// If the target goes reverse or out of range, return invalid status
+	if !isWithin(r, len(ns.original)) {
 		return NewNormalizedRange(0, 0), false
 	}
 
@@ -412,8 +412,8 @@ func (ns *NormalizedString) CoerceRangeToOriginal(r Range) (OriginalRange, bool)
 		return NewOriginalRange(r.Start(), r.End()), true
 	}
 
-	// If the target goes reverse, return invalid status
-	if r.Start() > r.End() {
+	// If the target goes reverse or out of range, return invalid status
+	if !isWithin(r, len(ns.normalized)) {
 		return NewOriginalRange(0, 0), false
 	}
 
@@ -816,6 +816,12 @@ func (ns *NormalizedString) TrimLeftRight(left, right bool) {
 	ns.Transform(transforms, leadingSpaces)
 }
 
+// isWithin reports whether the given range is not reversed and lies inside
+// a text of the given length.
+func isWithin(r Range, length int) bool {
+	return 0 <= r.Start() && r.Start() <= r.End() && r.End() <= length
+}
+
 // rangeIsValid validates the given range, to make sure it is on rune boundaries.
 func (ns *NormalizedString) rangeIsValid(r Range) bool {
 	var s string
-- 
2.43.0


From 3a3ade107c7005f623ec23e9268e5813d47e8325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:40 +0000
Subject: [PATCH 07/17] fix: slicing an empty range never crashes

---
 normalizedstring/normalizedstring.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index 9687df0..b0b25a3 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -659,10 +659,13 @@ func (ns *NormalizedString) Slice(rng Range) (*NormalizedString, bool) {
 
 	alignments := make([]AlignmentRange, normalizedRange.Len())
 
-	for i, alignment := range ns.alignments[normalizedRange.start:normalizedRange.end] {
-		alignments[i] = AlignmentRange{
-			start: alignment.start - nShift,
-			end:   alignment.end - nShift,
+	// The position of an empty range might be outside of the normalized string
+	if normalizedRange.Len() > 0 {
+		for i, alignment := range ns.alignments[normalizedRange.start:normalizedRange.end] {
+			alignments[i] = AlignmentRange{
+				start: alignment.start - nShift,
+				end:   alignment.end - nShift,
+			}
 		}
 	}
 
-- 
2.43.0


From 7dbf6d199aa8ccb1be7df7efba12423e16663ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 08/17] fix: inverse alignments of an empty normalized text

---
 normalizedstring/normalizedstring.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index b0b25a3..cbc2709 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -244,6 +244,10 @@ func (ns *NormalizedString) OriginalAlignments() []AlignmentRange {
 	// (offset, length) are in originalAlignments
 	originalAlignments := make([]AlignmentRange, 0, len(ns.original))
 
+	if len(ns.alignments) == 0 {
+		return originalAlignments[:len(ns.original)]
+	}
+
 	// Eventual gap before first group
 
 	if start := ns.alignments[0].start; start > 0 {
-- 
2.43.0


From 051187611e5ca05a73d92fe6d376a441c7ecd492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:42 +0000
Subject: [PATCH 09/17] fix: BPE puts the continuation prefix on all characters
 but the first

---
 models/bpemodel/bpemodel.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/bpemodel/bpemodel.go b/models/bpemodel/bpemodel.go
index 308f9fd..be9225b 100644
--- a/models/bpemodel/bpemodel.go
+++ b/models/bpemodel/bpemodel.go
@@ -139,7 +139,7 @@ func (m *BPEModel) mergeWord(w string) (*Word, error) {
 		s := string(r)
 		byteLen := len(s)
 
-		if i == 0 && m.hasContinuingSubwordPrefix() {
+		if i > 0 && m.hasContinuingSubwordPrefix() {
 			s = m.continuingSubwordPrefix + s
 		}
 		if i == lastRuneIndex && m.hasEndOfWordSuffix() {
-- 
2.43.0


From 39237d12ba0208667db1fea5cfbfa399100f422d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 10/17] fix: WordPiece shortens candidates by whole characters

---
 models/wordpiecemodel/wordpiecemodel.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/models/wordpiecemodel/wordpiecemodel.go b/models/wordpiecemodel/wordpiecemodel.go
index acda3c2..5978c80 100644
--- a/models/wordpiecemodel/wordpiecemodel.go
+++ b/models/wordpiecemodel/wordpiecemodel.go
@@ -9,6 +9,7 @@ import (
 	"github.com/nlpodyssey/gotokenizers/models"
 	"github.com/nlpodyssey/gotokenizers/strutils"
 	"github.com/nlpodyssey/gotokenizers/vocabulary"
+	"unicode/utf8"
 )
 
 var ErrUnknownTokenOutOfVocabulary = fmt.Errorf("the provided unk token is out of vocabulary")
@@ -91,11 +92,8 @@ func (m *WordPieceModel) Tokenize(sequence string) ([]models.Token, error) {
 				break
 			}
 
-			if len(subStr) > 0 {
-				end -= len(string(subStr[len(subStr)-1]))
-			} else {
-				end--
-			}
+			_, lastRuneSize := utf8.DecodeLastRuneInString(sequence[start:end])
+			end -= lastRuneSize
 		}
 
 		if !hasCurToken {
-- 
2.43.0


From 85c9cc073a23b426b629410b6d617fbd0a9bde32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 11/17] fix: a merge whose right term is shorter than the
 prefix is an error

---
 models/bpemodel/mergemap.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/models/bpemodel/mergemap.go b/models/bpemodel/mergemap.go
index 498caf6..41f0838 100644
--- a/models/bpemodel/mergemap.go
+++ b/models/bpemodel/mergemap.go
@@ -72,6 +72,9 @@ func MergeMapFromFile(
 			return nil, fmt.Errorf("line %d: right merge token is out of vocabulary", lineCount)
 		}
 
+		if prefixLength > len(terms[1]) {
+			return nil, fmt.Errorf("line %d: right merge token is shorter than the prefix", lineCount)
+		}
 		mergedTerm := fmt.Sprintf("%s%s", terms[0], terms[1][prefixLength:])
 		mergedID, mergedOK := vocab.GetID(mergedTerm)
 		if !mergedOK {
-- 
2.43.0


From 8079ebb5ec059c8e641faf003c6fdb3965abdb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 12/17] fix: meta-space prefix is not added to a text which
 starts with a space

---
 .../metaspacepretokenizer/metaspacepretokenizer.go          | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pretokenizers/metaspacepretokenizer/metaspacepretokenizer.go b/pretokenizers/metaspacepretokenizer/metaspacepretokenizer.go
index de5ccb1..9bac292 100644
--- a/pretokenizers/metaspacepretokenizer/metaspacepretokenizer.go
+++ b/pretokenizers/metaspacepretokenizer/metaspacepretokenizer.go
@@ -58,13 +58,13 @@ func (m *MetaSpacePreTokenizer) PreTokenize(pts *pretokenizedstring.PreTokenized
 	splittingPattern := splitpattern.FromRune(m.replacement)
 	return pts.Split(
 		func(_ int, ns *normalizedstring.NormalizedString) ([]pretokenizedstring.Split, error) {
-			if m.prefixSpaceEnabled && !strings.HasPrefix(ns.Get(), m.strReplacement) {
-				ns.Prepend(m.strReplacement)
-			}
 			err := ns.Replace(splitpattern.FromRune(' '), m.strReplacement)
 			if err != nil {
 				return nil, err
 			}
+			if m.prefixSpaceEnabled && !strings.HasPrefix(ns.Get(), m.strReplacement) {
+				ns.Prepend(m.strReplacement)
+			}
 			nss, err := ns.Split(splittingPattern, normalizedstring.SplitDelimiterMergedWithNext)
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 008c256d91c7c2473f9ac951b59790e646175f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 13/17] fix: a new vocabulary term never takes the id of
 another term

---
 vocabulary/vocabulary.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vocabulary/vocabulary.go b/vocabulary/vocabulary.go
index 4a8eaee..26e31cd 100644
--- a/vocabulary/vocabulary.go
+++ b/vocabulary/vocabulary.go
@@ -46,13 +46,18 @@ func FromJSONFile(filename string) (*Vocabulary, error) {
 
 // AddTerm adds a new term to the vocabulary.
 // If the term does not yet exist in the vocabulary, a new ID is associated to
-// it, corresponding to the current vocabulary size.
+// it, corresponding to the current vocabulary size (or to the next ID which
+// is free, if that one is already taken).
 // Otherwise, if the string already exists, no insertion is performed.
 func (v *Vocabulary) AddTerm(term string) {
 	if _, ok := v.termToID[term]; ok {
 		return
 	}
 	id := v.Size()
+	// A vocabulary read from file might already associate this ID to a term
+	for _, taken := v.idToTerm[id]; taken; _, taken = v.idToTerm[id] {
+		id++
+	}
 	v.termToID[term] = id
 	v.idToTerm[id] = term
 }
-- 
2.43.0


From 5dbfa70d606d67c501bb3b39e98962b01eaa2ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:13 +0000
Subject: [PATCH 14/17] fix: a null vocabulary file is an error

---
 vocabulary/vocabulary.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vocabulary/vocabulary.go b/vocabulary/vocabulary.go
index 26e31cd..2a32eca 100644
--- a/vocabulary/vocabulary.go
+++ b/vocabulary/vocabulary.go
@@ -6,6 +6,7 @@ package vocabulary
 
 import (
 	"encoding/json"
+	"fmt"
 	"io/ioutil"
 )
 
@@ -35,6 +36,9 @@ func FromJSONFile(filename string) (*Vocabulary, error) {
 	if err != nil {
 		return nil, err
 	}
+	if termToID == nil {
+		return nil, fmt.Errorf("vocabulary file %#v is not a JSON object", filename)
+	}
 
 	idToTerm := make(map[int]string, len(termToID))
 	for term, id := range termToID {
-- 
2.43.0


From 7fba8ef412770d2d360eb019526eed42e83057aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:14 +0000
Subject: [PATCH 15/17] fix: Chinese characters include the start of CJK
 extension E

---
 normalizers/bertnormalizer/bertnormalizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalizers/bertnormalizer/bertnormalizer.go b/normalizers/bertnormalizer/bertnormalizer.go
index 3ff4501..60df23b 100644
--- a/normalizers/bertnormalizer/bertnormalizer.go
+++ b/normalizers/bertnormalizer/bertnormalizer.go
@@ -118,7 +118,7 @@ var chineseCharacters = &unicode.RangeTable{
 		{0x20000, 0x2a6df, 1},
 		{0x2a700, 0x2b73f, 1},
 		{0x2b740, 0x2b81f, 1},
-		{0x2b920, 0x2ceaf, 1},
+		{0x2b820, 0x2ceaf, 1},
 		{0x2f800, 0x2fa1f, 1},
 	},
 }
-- 
2.43.0


From de97cabd09edbbf8047e6c167fcdd448eaf98a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 16/17] fix: right-to-left expressions give ordered captures

---
 splitpattern/regexp2.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/splitpattern/regexp2.go b/splitpattern/regexp2.go
index 909fa3f..f01e8d0 100644
--- a/splitpattern/regexp2.go
+++ b/splitpattern/regexp2.go
@@ -36,7 +36,24 @@ func (sp *Regexp2SplitPattern) FindMatches(s string) ([]Capture, error) {
 		return nil, err
 	}
 
+	matches := make([]*regexp2.Match, 0)
 	for match != nil {
+		matches = append(matches, match)
+
+		match, err = sp.r.FindNextMatch(match)
+		if err != nil {
+			return nil, err
+		}
+	}
+
+	// Right-to-left matches come in reverse order
+	if sp.r.RightToLeft() {
+		for i, j := 0, len(matches)-1; i < j; i, j = i+1, j-1 {
+			matches[i], matches[j] = matches[j], matches[i]
+		}
+	}
+
+	for _, match := range matches {
 		startByte := len(string(runes[:match.Index]))
 		endByte := startByte + len(match.String())
 
@@ -51,11 +68,6 @@ func (sp *Regexp2SplitPattern) FindMatches(s string) ([]Capture, error) {
 			IsMatch: true,
 		})
 		prev = endByte
-
-		match, err = sp.r.FindNextMatch(match)
-		if err != nil {
-			return nil, err
-		}
 	}
 
 	if prev != len(s) {
-- 
2.43.0


From 06a4ff02fa88c61be60df3b694ef4553b9a7fc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:04 +0000
Subject: [PATCH 17/17] fix: an expired BPE merge is not applied in place of
 another one with the same result

---
 models/bpemodel/word.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/bpemodel/word.go b/models/bpemodel/word.go
index c5f35e6..294c489 100644
--- a/models/bpemodel/word.go
+++ b/models/bpemodel/word.go
@@ -122,7 +122,7 @@ func (w *Word) MergeAll(merges *MergeMap, dropout float64) {
 		right := (*w)[nextPos]
 
 		// Make sure we are not processing an expired queue entry
-		if m, ok := merges.Get((*w)[top.Pos].ID, right.ID); !ok || m.ID != top.ID {
+		if m, ok := merges.Get((*w)[top.Pos].ID, right.ID); !ok || m != top.MergeValue {
 			continue
 		}
 
-- 
2.43.0

