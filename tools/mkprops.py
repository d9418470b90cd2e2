#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements can be reviewed and edited in one place)."""
import json, os
NS='normalizedstring/normalizedstring.go'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

nsstate=[("original","text before any edit",NS),("normalized","text after the edits",NS),("alignments","for each byte of the normalized text, a byte span of the original text",NS),("originalShift","where this text starts inside the text it was sliced from",NS)]

p("C01","Alignments always point at whole original characters, in order",
"Whatever sequence of edits, splits and slices is applied to a text, the original it reports never changes, and every byte of the normalized text maps to a span of that original which is either one whole original character or the empty span at its very start (text inserted in front of everything). The spans never move backwards along the normalized text, and all bytes of one normalized character share one span. Editing one text never changes any other text it was sliced from or that was sliced from it.",
["inputs","histories"],"all valid UTF-8 texts; all finite histories of edits (filter, map, case change, trim, prepend, append, replace, character transformations), slices and splits, on any of the texts alive",
"The tests apply one or two edits to a handful of mostly ASCII literals and compare one final structure; no test chains edits with slices, and no test looks at a parent after its slice was edited.",
[NS],[("TransformRange rebuilds the alignment list for the replaced range","TransformRange"),("FromString aligns every byte with its own character","alignmentsFromString"),("Slice copies and shifts alignments","Slice")],nsstate,
["Get, GetOriginal, CoerceRangeToOriginal for every byte, OriginalOffsets"])

p("C02","Dropping or mapping characters keeps every survivor's provenance",
"Filtering, mapping, changing case and trimming (left, right or both) produce exactly the text obtained by dropping or replacing those characters and no others. Every character of the result stays aligned with the original character that the character it stems from was aligned with, however many bytes either takes.",
["inputs","histories"],"all valid UTF-8 texts in any state reached by earlier edits; all keep predicates and character mappings; every combination of trimmed sides",
"Tests filter and trim only single-byte characters at the edges, so byte counts and character counts coincide; provenance is checked for three literals.",
[NS,"normalizers/stripnormalizer/stripnormalizer.go","normalizers/lowercasenormalizer/lowercasenormalizer.go"],
[("Filter, Map, TrimLeftRight build character changes","Filter/Map/TrimLeftRight"),("TransformRange applies them","TransformRange")],nsstate,["Get and CoerceRangeToOriginal for every byte after each edit"])

p("C03","Inserted and replaced text is placed exactly and aligned to its neighbour",
"Prepending, appending and replacing produce exactly the expected text, and untouched characters keep their alignment. Prepended text takes the alignment of the first character and appended text that of the last one; replacement text takes the alignment of the last character of the match it replaces or, for an empty match, of the character just before it (the empty span at the start of the original if there is none). Prepending or appending to an empty normalized text, or prepending nothing, changes nothing.",
["inputs","histories"],"all valid UTF-8 texts in any reachable state; all inserted texts; all patterns, including ones that match the empty string; all replacement texts, including the empty one",
"Tests prepend/append one ASCII literal to one ASCII literal and only look at the resulting text of four ASCII replacements, never at alignments or multi-byte text.",
[NS],[("Prepend/Append/Replace translate to character changes over a range","Prepend, Append, Replace"),("TransformRange","TransformRange")],nsstate,["Get and CoerceRangeToOriginal after each edit"])

p("C04","Explicit character transformations rewrite only their range",
"Transforming a range of a text replaces exactly that range by the given characters: a character marked as replacing or preceding N removed characters takes the alignment of the character it consumes, a character marked as new takes that of the text position just before it, and text outside the range keeps its content and alignment. The count of initially removed items is a count of characters, whatever their width. The range may be given in original or normalized positions; one that cannot be converted leaves the text unchanged.",
["inputs","histories"],"all valid UTF-8 texts in any reachable state; all character-aligned ranges in either referential; all change lists that consume no more characters than the range holds",
"A dozen literals are checked; multi-byte text is never combined with a nonzero initial count, and no transformed text is transformed again.",
[NS],[("TransformRange","TransformRange"),("Transform","Transform")],nsstate,["Get and CoerceRangeToOriginal after each call"])

p("C05","Range conversion and lookup between the two texts is sound and total",
"A non-empty range of the normalized text converts to the span from its first byte's alignment start to its last byte's alignment end; a non-empty range of the original converts to exactly the normalized characters aligned inside it (if none, the empty range after the last character ending before the range's end, or a failure if there is no such character either), and an empty range converts to itself. Text lookups return the text at the converted range. A lookup or conversion that is reversed or reaches outside the text it indexes reports failure and never crashes.",
["inputs","histories"],"all texts in any reachable state; all pairs of integer bounds, including reversed, negative and out-of-range ones, in both referentials",
"Tests query one filtered ASCII text at about ten positions; ranges beyond the end, ranges cutting characters and texts with inserted prefixes are not sampled together.",
[NS,"normalizedstring/range.go"],[("CoerceRangeToNormalized / CoerceRangeToOriginal","normalizedstring.go"),("GetRange / GetOriginalRange","normalizedstring.go")],nsstate,["return values of the four range functions"])

p("C06","The inverse alignment agrees with the forward alignment",
"The inverse alignment has one entry per byte of the original text. The entry of a byte whose character still has normalized characters aligned to it spans exactly those normalized bytes; any other byte's entry is the empty range at the position right after the normalized text stemming from earlier characters. Computing it never fails, not even for a text that has become empty.",
["inputs","histories"],"all valid UTF-8 texts in any state reachable by edits, slices and splits",
"Tests compare the inverse alignment for about a dozen literals after a single transformation and never for empty or sliced texts.",
[NS],[("OriginalAlignments walks groups of equal alignments and fills gaps","OriginalAlignments")],nsstate,["OriginalAlignments"])

p("C07","Slices are faithful windows on the text they were cut from",
"A slice taken by a non-empty range of whole characters holds exactly that range of one text and the corresponding converted range of the other, and each of its characters stays aligned with the same character of the original. The offsets it reports, added up through any chain of slices, locate its original text inside the very first text. A range whose bounds are not on character boundaries of the text it indexes, or that is reversed, yields a failure, and an empty range yields an empty slice; neither crashes.",
["inputs","histories"],"all texts in any reachable state; all ranges in both referentials, valid or not; all chains of slices and edits",
"No test calls slicing directly; it is only reached through five delimiter splits of one ASCII literal whose offsets are not compared.",
[NS],[("Slice","Slice"),("rangeIsValid checks character boundaries","rangeIsValid"),("strutils.IsRuneBoundary","strutils/strutils.go")],nsstate,["Slice result: Get, GetOriginal, OriginalOffsets, CoerceRangeToOriginal"])

p("C08","Delimiter splits follow the chosen behaviour and lose nothing else",
"Splitting a text by a pattern yields, in order, exactly the pieces prescribed by the chosen behaviour: matches dropped, matches isolated, each match attached to the piece before it or after it (a match next to another match stands alone when that one was already attached), or runs of adjacent matches kept together. Put back together, with the dropped matches, the pieces are the normalized text, and each piece is the slice of the text at its position. A failing pattern yields an error and no pieces.",
["inputs","histories","configurations"],"all texts in any reachable state, all patterns (including empty matches, adjacent matches, everything or nothing matching), all five behaviours",
"One ASCII literal is split by one single-character delimiter; no multi-byte delimiters, no leading or trailing delimiters, no edited texts, no offsets.",
[NS],[("Split merges captures per behaviour then slices","Split")],nsstate,["Split result pieces"])

p("C09","Split patterns cover the whole text with ordered contiguous captures",
"For every text, each pattern kind (character predicate, character, literal string, regular expression of either engine, inverted pattern) returns captures that are contiguous, ordered and together cover the whole text in bytes. Exactly the pattern's matches are flagged as matches: every satisfying character for predicates and characters, the leftmost non-overlapping occurrences for literals and expressions (an empty literal matches nothing), and inversion flips each flag and nothing else. Unmatched stretches are single captures, and an empty text gives one empty unmatched capture.",
["inputs","configurations"],"all valid UTF-8 texts; all predicates, characters, literals (also those with expression metacharacters) and expressions of both engines, including ones with empty matches, look-around and right-to-left matching",
"Each pattern kind is tested on about five short texts; multi-byte text with the empty literal, empty matches and right-to-left expressions are never sampled.",
["splitpattern/func.go","splitpattern/rune.go","splitpattern/string.go","splitpattern/regexp.go","splitpattern/regexp2.go","splitpattern/invertedpattern.go"],
[("FindMatches of each pattern","splitpattern/*.go"),("contract comment of SplitPattern","splitpattern/splitpattern.go")],None,["FindMatches"])

p("C10","Splitting, normalizing and tokenizing touch only pending pieces, in order",
"A pre-tokenized text starts as one piece; splitting replaces each piece that has no tokens yet by the non-empty pieces its split produced, in order and in place, and keeps pieces that have tokens untouched. Normalizing and tokenizing visit exactly the pieces without tokens, once each, in order, and tokenizing attaches the returned tokens, even if there are none. When a callback fails, its error is returned: a failed split leaves the list of pieces as it was, a failed tokenization or normalization leaves the failing and later pieces unprocessed.",
["inputs","histories","fault_sequences"],"all texts; all finite sequences of split, normalize and tokenize steps with callbacks that may return empty pieces, already tokenized pieces, no pieces, or fail at any call",
"The package has no tests of its own; the pre-tokenizer tests run one or two successful splits on untokenized text and never fail a callback or mix tokenized and pending pieces.",
["pretokenizedstring/pretokenizedstring.go","pretokenizedstring/split.go"],
[("Split/Normalize/Tokenize skip pieces with tokens","pretokenizedstring.go")],[("splits","ordered pieces, each a text with optional tokens","pretokenizedstring/pretokenizedstring.go")],["Splits, GetOriginalByteSplits, GetNormalizedByteSplits after each step"])

p("C11","Every piece reports where it came from, through any chain of steps",
"After any chain of normalization and pre-tokenization steps, each piece's original offsets lie inside the input text on character boundaries and delimit exactly the original text that piece was cut from, and pieces are listed in text order. Normalized offsets tile the pieces contiguously from zero with each piece's byte length. Pre-tokenizers that only cut (whitespace, words, punctuation, delimiter) give pieces whose text, absent earlier normalization, equals the input at those offsets.",
["inputs","histories","configurations"],"all input texts; all chains of the library's normalizers, pre-tokenizers and custom pattern splits",
"Tests run each pre-tokenizer alone on at most a dozen literals; chains, pre-normalized input (one test) and pieces of pieces are not covered.",
["pretokenizedstring/pretokenizedstring.go",NS,"pretokenizers"],
[("GetOriginalByteSplits / GetNormalizedByteSplits","pretokenizedstring/pretokenizedstring.go"),("originalShift accumulation in Slice",NS)],None,["GetOriginalByteSplits","GetNormalizedByteSplits"])

p("C12","Encodings list every token once with its original offsets and word",
"Encoding a fully tokenized text lists exactly the tokens of its pieces, in order, with their ids and texts, the given type id, ordinary-token and attention flags, and as word the index of the piece, or the given index for all tokens if one is given; all parallel lists have equal length. Each token's offsets are those, in the input text, of the original characters its piece range maps to; a token reaching out of its piece keeps its own. Encoding fails, changing nothing, while any piece lacks tokens, and an input without pieces gives an empty encoding. An encoding made directly of tokens lists these with their own type ids and words, and one made of given lists holds those.",
["inputs","histories","configurations"],"all input texts, all pipelines of normalizers, pre-tokenizers and models (or custom tokenization callbacks), all word and type indices, all mixtures of tokenized and pending pieces",
"No test builds an encoding at all.",
["pretokenizedstring/pretokenizedstring.go","encodings/encodings.go"],
[("IntoEncoding converts token offsets through alignments","IntoEncoding"),("EncodingFromEncodableTokens builds the parallel lists","encodings/encodings.go")],None,["IntoEncoding result"])

p("C13","BPE applies the best-ranked merge first until none applies",
"Without dropout, tokenizing a word with a byte-pair model gives the tokens obtained by starting from its characters and repeatedly merging the adjacent pair with the lowest rank, leftmost first among equals, until no adjacent pair has a merge. The result does not depend on how candidate merges are kept or on merges that became obsolete along the way.",
["inputs","configurations"],"all words; all vocabularies and merge tables in which each merge produces the concatenation of its two parts, in any rank order",
"One eight-merge table is applied to one word; competing overlapping merges, repeated characters, obsolete candidates and long words are not sampled.",
["models/bpemodel/word.go","models/bpemodel/wordmerge.go","models/bpemodel/bpemodel.go","models/bpemodel/mergemap.go"],
[("MergeAll drives a heap of candidate merges with stale-entry checks","models/bpemodel/word.go"),("heap order by rank then position","models/bpemodel/wordmerge.go")],
[("Word","symbols with previous/next links","models/bpemodel/word.go"),("queue","candidate merges ordered by rank and position","models/bpemodel/word.go")],["BPEModel.Tokenize, Word.MergeAll"])

p("C14","BPE tokens tile the word; unknown characters, prefix and suffix are handled",
"The tokens of a non-empty word tile it: offsets start at zero, are contiguous, end at its byte length and lie on character boundaries, and each token carries the id and the vocabulary text of its symbol; an empty word has no tokens. Characters are looked up with the continuation prefix unless first and with the end-of-word suffix if last; one that is not in the vocabulary becomes the unknown token, runs of adjacent unknown characters forming one token exactly if fusion is enabled. An unknown token that is itself not in the vocabulary, or a merge into an id that has no term, makes tokenization fail.",
["inputs","configurations"],"all words and vocabularies where an unknown token is configured or every character is known; all combinations of unknown token, fusion, prefix and suffix",
"The tests never use an unknown token, fusion, a prefix, a suffix or a multi-byte character.",
["models/bpemodel/bpemodel.go","models/bpemodel/word.go"],
[("mergeWord builds the initial symbols","models/bpemodel/bpemodel.go"),("wordToTokens accumulates offsets","models/bpemodel/bpemodel.go")],None,["BPEModel.Tokenize"])

p("C15","BPE dropout only ever skips merges",
"With dropout, every tokenization is one that some sequence of applicable merges can produce, and it still tiles the word. Dropout one performs no merge at all, dropout zero is the deterministic result, and a dropout probability strictly between can produce different outcomes: the applicable merges are gone through best first, each is skipped with the given probability independently of the others, and after a merge was performed those skipped before are considered again.",
["inputs","schedules","configurations"],"all words, vocabularies and well-formed merge tables; all dropout probabilities; all outcomes of the random choices",
"One word is tokenized once at 0, 1 and 0.3, and for 0.3 only the number of tokens is bounded.",
["models/bpemodel/word.go","models/bpemodel/bpemodel.go"],
[("MergeAll skips popped candidates at random and re-queues them after a merge","models/bpemodel/word.go")],None,["BPEModel.Tokenize with dropout"])

p("C16","WordPiece takes the longest known piece at every position or gives up whole",
"A word is cut left to right into the longest vocabulary pieces, pieces after the first being looked up with the continuation prefix; each token carries the id and text of its vocabulary entry and offsets that tile the word on character boundaries. If some position has no matching piece, or the word has more characters than the configured maximum, the result is the single unknown token spanning the whole word, or a failure if that token is not in the vocabulary.",
["inputs","configurations"],"all valid UTF-8 words, all vocabularies, prefixes, unknown tokens and maximum lengths",
"Six ASCII words are tokenized with one vocabulary; no multi-byte character, no maximum at the boundary, no missing unknown token.",
["models/wordpiecemodel/wordpiecemodel.go"],
[("Tokenize: greedy scan shrinking the candidate from the right","models/wordpiecemodel/wordpiecemodel.go")],None,["WordPieceModel.Tokenize"])

p("C17","A vocabulary is a bijection between terms and ids under every history",
"A term resolves to an id exactly if that id resolves to that term; ids of existing terms never change, adding an existing term changes nothing, and adding a new term gives it an id no other term has, equal to the number of terms if that id is free. The size is the number of distinct terms. A vocabulary loaded from a file holds exactly the file's terms with their ids, and a missing or malformed file yields an error.",
["inputs","histories"],"all histories of additions and lookups, starting from an empty vocabulary or from any loaded one with distinct ids (dense or not)",
"One three-term file is loaded; additions are never tested, neither from empty nor on top of a loaded file.",
["vocabulary/vocabulary.go"],[("AddTerm","vocabulary/vocabulary.go"),("FromJSONFile builds the inverse map","vocabulary/vocabulary.go")],
[("termToID/idToTerm","the two directions of the association","vocabulary/vocabulary.go")],["AddTerm, Size, GetID, GetString, FromJSONFile"])

p("C18","Merge files load with ranks in line order, or fail cleanly",
"Loading a merge file yields one merge per line other than version comments, ranked from zero in line order, joining the two named vocabulary terms into the vocabulary term made of the left one and the right one without the given number of leading bytes; a later line for the same pair overrides the earlier. Lines that do not have exactly two terms, name terms or results that are not in the vocabulary, or have a right term shorter than the prefix, and files that cannot be read, make loading fail with an error that names the offending line where there is one; loading never crashes.",
["inputs","fault_sequences"],"all file contents (comments anywhere, blank lines, duplicate pairs, any line ends, no final line end), all vocabularies and prefix lengths",
"Two runs over one three-line well-formed file; no comment, no error path.",
["models/bpemodel/mergemap.go"],[("MergeMapFromFile","models/bpemodel/mergemap.go")],None,["MergeMapFromFile, MergeMap.Get"])

p("C19","BERT normalization applies exactly its enabled cleanings, in order",
"BERT normalization first removes null, replacement and control characters other than tab, newline and carriage return, and turns every whitespace character into a space; then puts a space on both sides of every Chinese character (CJK unified ideographs, their extensions A to E, and compatibility ideographs); then removes non-spacing marks; then lowercases; each step only if enabled, and no other character changes. Every resulting character stays aligned with the character it comes from, inserted spaces with their Chinese character.",
["inputs","configurations"],"all Unicode characters in any text and all sixteen combinations of the four options",
"One literal with about ten distinct special characters is normalized; class boundaries, wide removed characters, combinations of options and alignments are not checked.",
["normalizers/bertnormalizer/bertnormalizer.go",NS],
[("cleanText, handleChineseChars, stripAccents, ToLower in order","normalizers/bertnormalizer/bertnormalizer.go"),("character classes","isControlCharacter, isWhitespace, chineseCharacters")],None,["Normalize result: Get, alignments"])

p("C20","Normalizer sequences run in order and stop at the first error",
"A normalizer sequence has the effect of its members run one after another on the same text, in the given order, also when sequences are nested; the first member that fails ends it with that member's error, and later members do not run. Strip normalization removes exactly the leading and/or trailing whitespace characters selected, and lowercase normalization lowercases every character in place.",
["inputs","configurations","fault_sequences"],"all texts, all finite (nested) sequences of the library's and custom normalizers, failure at any position",
"Three short sequences on ASCII-edged literals; the error test does not check which members ran.",
["normalizers/sequencenormalizer/sequencenormalizer.go","normalizers/stripnormalizer/stripnormalizer.go","normalizers/lowercasenormalizer/lowercasenormalizer.go"],
[("Normalize loops and returns the first error","normalizers/sequencenormalizer/sequencenormalizer.go")],None,["Normalize result and error"])

p("C21","Byte-level pre-tokenization is lossless and aligned",
"Byte-level pre-tokenization cuts each pending text at the boundaries of its splitting expression, keeping matched and unmatched stretches as pieces, and replaces every byte by its own printable stand-in character, a fixed one-to-one mapping of the 256 byte values; decoding the concatenated pieces gives back the text, plus one leading space exactly if the space prefix is enabled and the text does not start with whitespace. Every stand-in stays aligned with the character its byte belongs to. With the default expression the pieces are the contractions, words, numbers, symbol runs (each with at most one leading space) and whitespace runs that expression defines. When the expression fails on a text, such as by running out of time, so does the step, and no text is cut.",
["inputs","configurations"],"all valid UTF-8 texts, prefix on or off, default and custom splitting expressions, fresh or already split texts",
"Five English literals; three of the 256 byte values outside ASCII are exercised.",
["pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go"],
[("PreTokenize: prefix, split, byte expansion","bytelevelpretokenizer.go"),("byteToRune table","init in bytelevelpretokenizer.go")],None,["GetOriginalByteSplits, GetNormalizedByteSplits"])

p("C22","Cutting pre-tokenizers keep exactly the text between delimiters",
"Whitespace splitting and character-delimiter splitting drop exactly the whitespace characters, or the delimiter, and keep every maximal stretch between them; BERT pre-tokenization additionally isolates every Unicode punctuation character; word pre-tokenization keeps maximal runs of word characters and maximal runs of characters that are neither word characters nor whitespace, and drops the rest. Nothing else is dropped, changed, joined or reordered, and no piece is empty. When a word expression fails on a text, such as by running out of time, so does the step, and no text is cut.",
["inputs","configurations"],"all valid UTF-8 texts over all Unicode characters, all delimiters, default and custom word expressions, fresh, edited or already split texts",
"Each is tested on at most a dozen literals with ASCII whitespace and punctuation.",
["pretokenizers/whitespacesplitpretokenizer/whitespacesplitpretokenizer.go","pretokenizers/whitespacepretokenizer/whitespacepretokenizer.go","pretokenizers/bertpretokenizer/bertpretokenizer.go","pretokenizers/runedelimiterpretokenizer/runedelimiterpretokenizer.go"],
[("patterns and behaviours passed to Split","each PreTokenize")],None,["GetOriginalByteSplits"])

p("C23","Meta-space pre-tokenization marks every space and cuts before each mark",
"Meta-space pre-tokenization replaces every space by the replacement mark and, if the prefix is enabled and the result does not already start with the mark, puts one mark in front; the text is then cut before every mark, so that every piece has at most one mark, at its beginning, and the pieces joined are the marked text. The pieces' original offsets are in order, do not overlap and together cover the text.",
["inputs","configurations"],"all valid UTF-8 texts with spaces and marks anywhere, all replacement characters, prefix on or off, fresh or already split texts",
"Two literals, neither starting with a space nor containing the mark.",
["pretokenizers/metaspacepretokenizer/metaspacepretokenizer.go"],
[("PreTokenize: prefix, replace, split merged with next","metaspacepretokenizer.go")],None,["GetOriginalByteSplits, GetNormalizedByteSplits"])

p("C24","Components are reusable: results depend on neither history nor interleaving",
"Models, patterns, normalizers and pre-tokenizers give for each call the result of a fresh instance with the same configuration, whatever calls came before, failed or succeeded, however many distinct words were seen (beyond any cache capacity), and whatever the caller did with earlier results. The same instance may be used by concurrent callers: every call gets its own result under every interleaving, without data races.",
["histories","schedules"],"all histories of calls, all cache capacities, all interleavings of concurrent callers of one instance",
"Tests call each instance once or a few times from one goroutine; the word cache is a stub today and no test would notice a wrong one.",
["models/bpemodel/bpemodel.go","models/bpemodel/wordcache.go","models/wordpiecemodel/wordpiecemodel.go","pretokenizers","splitpattern","normalizers"],
[("models hold only read-only configuration","models"),("cache consulted before merging","tokenizeWithCache")],[("cache","word to symbols memo (stub)","models/bpemodel/wordcache.go")],["results of repeated and concurrent calls"])

p("C25","Byte offsets convert to character offsets, and boundaries are recognised",
"For every text and every byte range on character boundaries, the conversion to character offsets gives the numbers of characters before its two ends, also for empty ranges and at the end of the text. A byte index is recognised as a character boundary exactly if it is the start of a character or the end of the text; any other index, in range or not, is not.",
["inputs"],"all valid UTF-8 texts and all indices, including negative and too large ones",
"The converter has no test and no caller in the library; boundaries are tested at seven indices of one literal.",
["strutils/strutils.go"],[("BytesToRuneOffsetConverter","strutils/strutils.go"),("IsRuneBoundary","strutils/strutils.go")],None,["Convert, IsRuneBoundary"])

with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
