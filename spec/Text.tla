-------------------------------- MODULE Text --------------------------------
(* Texts are sequences of characters (Unicode scalar values, as integers).   *)
(* Byte positions are derived from the UTF-8 width of the characters before. *)
(*                                                                           *)
(* CT is the character class table: a function from characters to records    *)
(* of classes.  Model-checking configurations define it literally; trace     *)
(* checking takes it from the header of the trace file.                      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

CONSTANT CT

\* Range of a sequence.
Rng(s) == {s[i] : i \in DOMAIN s}
\* The same sequence (TLC evaluates the elements once, here, instead of at every use).
Eager(s) == s \o <<>>
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == 0 - MinOf({0 - x : x \in S})   \* (TLC looks at sets in ascending order)
Mn2(x, y) == IF x <= y THEN x ELSE y
Mx2(x, y) == IF x >= y THEN x ELSE y

--------------------------------------------------------------------------------
(* UTF-8 *)

\* A character beyond Unicode stands for a very long run of characters that the
\* operations at hand treat alike; WideBase plus its bytes.
WideBase == 1114112

W(c) == IF c >= WideBase THEN c - WideBase ELSE IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4

Utf8(c) ==
  CASE W(c) = 1 -> <<c>>
    [] W(c) = 2 -> <<192 + (c \div 64), 128 + (c % 64)>>
    [] W(c) = 3 -> <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    [] OTHER    -> <<240 + (c \div 262144), 128 + ((c \div 4096) % 64),
                     128 + ((c \div 64) % 64), 128 + (c % 64)>>

ByteLen(t) == FoldLeft(LAMBDA n, c : n + W(c), 0, t)

\* Offs(t)[i] is the byte position of the i-th character (1-based);
\* Offs(t)[Len(t) + 1] is the length of the text in bytes.
Offs(t) == FoldLeft(LAMBDA acc, c : Append(acc, acc[Len(acc)] + W(c)), <<0>>, t)

\* The first index at which the ascending sequence off reaches b.
RECURSIVE ReachedIn(_, _, _, _)
ReachedIn(off, b, lo, hi) ==
  IF lo >= hi THEN lo
  ELSE LET mid == (lo + hi) \div 2
       IN IF off[mid] >= b THEN ReachedIn(off, b, lo, mid) ELSE ReachedIn(off, b, mid + 1, hi)
Reached(off, b) == ReachedIn(off, b, 1, Len(off) + 1)
\* For off = Offs(t): whether b is a boundary, the character at the byte b, and
\* the number of characters that start before b.
OnBoundary(off, b) == LET i == Reached(off, b) IN i <= Len(off) /\ off[i] = b
CellAt(off, b) == Reached(off, b + 1) - 1
StartsBefore(off, b) == Mn2(Reached(off, b), Len(off)) - 1

Bytes(t) == FoldLeft(LAMBDA acc, c : acc \o Utf8(c), <<>>, t)

\* The bytes from position s up to e, which may lie inside of characters.
BytesIn(t, s, e) ==
  FoldLeft(LAMBDA acc, c :
             LET w == W(c) IN
             [at |-> acc.at + w,
              b  |-> IF acc.at + w <= s \/ acc.at >= e THEN acc.b
                     ELSE acc.b \o SubSeq(Utf8(c), Mx2(s - acc.at, 0) + 1, Mn2(e - acc.at, w))],
           [at |-> 0, b |-> <<>>], t).b

\* A scalar value, as opposed to what invalid UTF-8 decodes to (logged as -1).
ValidChar(c) == c >= 0 /\ ~(c >= 55296 /\ c <= 57343)
ValidText(t) == \A i \in DOMAIN t : ValidChar(t[i])

\* strutils.IsRuneBoundary
IsBoundary(t, b) == OnBoundary(Offs(t), b)

\* The number of characters before the byte position b (a boundary).
CharsBefore(t, b) == StartsBefore(Offs(t), b)

\* The text between two boundaries.
Sub(t, s, e) == LET off == Offs(t) IN SubSeq(t, StartsBefore(off, s) + 1, StartsBefore(off, e))

\* strutils.BytesToRuneOffsetConverter
ToCharOffsets(t, s, e) == <<CharsBefore(t, s), CharsBefore(t, e)>>

\* Texts given by runs <<character, count>>, for very long ones: the same two.
RunsChars(runs, b) ==
  FoldLeft(LAMBDA acc, x :
             [left |-> acc.left - x[2] * W(x[1]),
              n    |-> acc.n + (IF acc.left <= 0 THEN 0
                                ELSE Mn2(x[2], (acc.left + W(x[1]) - 1) \div W(x[1])))],
           [left |-> b, n |-> 0], runs).n
RunsBoundary(runs, b) ==
  LET r == FoldLeft(LAMBDA acc, x :
             [at |-> acc.at + x[2] * W(x[1]),
              hit |-> acc.hit \/ (/\ acc.at <= b /\ b < acc.at + x[2] * W(x[1])
                                 /\ (b - acc.at) % W(x[1]) = 0)],
             [at |-> 0, hit |-> FALSE], runs)
  IN r.hit \/ b = r.at
Expand(runs) == FoldLeft(LAMBDA acc, x : acc \o [i \in 1..x[2] |-> x[1]], <<>>, runs)

--------------------------------------------------------------------------------
(* Character classes, from the class table *)

IsWhite(c) == CT[c].ws      \* Unicode property White_Space
ToLow(c)   == CT[c].low     \* simple lower case mapping
ToUp(c)    == CT[c].up      \* simple upper case mapping
IsPunct(c) == CT[c].pu      \* general category P*
IsMn(c)    == CT[c].mn      \* general category Mn
IsOther(c) == CT[c].ot      \* general category C*
\* Classes of the regular expression engine regexp2 (trusted; looked up one
\* character at a time).
IsReSpace(c)  == CT[c].rs   \* \s
IsReWord(c)   == CT[c].rw   \* \w
IsReLetter(c) == CT[c].rl   \* \p{L}
IsReNumber(c) == CT[c].rn   \* \p{N}
ReFold(c)     == CT[c].rf   \* the ASCII letter it matches ignoring case, or 0

\* CJK unified ideographs, extensions A to E, compatibility ideographs.
CjkBlocks == << <<13312, 19903>>, <<19968, 40959>>, <<63744, 64255>>,
                <<131072, 173791>>, <<173824, 183983>>, <<194560, 195103>> >>
IsCjk(c) == \E i \in DOMAIN CjkBlocks : CjkBlocks[i][1] <= c /\ c <= CjkBlocks[i][2]
=============================================================================
