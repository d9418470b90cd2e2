-------------------------- MODULE NormalizedString --------------------------
(* A text with the history of its edits (package normalizedstring).          *)
(*                                                                           *)
(*   o   the original text                                                   *)
(*   sh  where the original starts in the text this one was sliced from      *)
(*       (-1 where the specification leaves it open)                         *)
(*   n   the normalized text: a sequence of cells [c, a], the character c    *)
(*       being aligned to the a-th character of o; a = 0 is the empty span   *)
(*       at the start of o (text inserted in front of everything)            *)
EXTENDS Patterns

NSNew(t) == [o |-> t, sh |-> 0, n |-> Eager([i \in 1..Len(t) |-> [c |-> t[i], a |-> i]])]

Norm(ns) == Eager([i \in 1..Len(ns.n) |-> ns.n[i].c])
Cells(t, a) == Eager([i \in 1..Len(t) |-> [c |-> t[i], a |-> a]])
\* The byte span of the original a cell is aligned to.
Span(off, a) == IF a = 0 THEN <<0, 0>> ELSE <<off[a], off[a + 1]>>
Spans(ns) == LET off == Offs(ns.o) IN Eager([i \in 1..Len(ns.n) |-> Span(off, ns.n[i].a)])

--------------------------------------------------------------------------------
(* Edits *)

Filter(ns, Keep(_)) == [ns EXCEPT !.n = SelectSeq(@, LAMBDA x : Keep(x.c))]

MapChars(ns, F(_)) == [ns EXCEPT !.n = Eager([i \in 1..Len(@) |-> [@[i] EXCEPT !.c = F(@)]])]

Trim(ns, left, right) ==
  LET solid == {i \in 1..Len(ns.n) : ~IsWhite(ns.n[i].c)}
      from  == IF ~left THEN 1 ELSE IF solid = {} THEN Len(ns.n) + 1 ELSE MinOf(solid)
      to    == IF ~right THEN Len(ns.n) ELSE IF solid = {} THEN 0 ELSE MaxOf(solid)
  IN [ns EXCEPT !.n = SubSeq(@, from, to)]

Prepend(ns, t) ==
  IF Len(ns.n) = 0 THEN ns ELSE [ns EXCEPT !.n = Cells(t, @[1].a) \o @]

AppendText(ns, t) ==
  IF Len(ns.n) = 0 THEN ns ELSE [ns EXCEPT !.n = @ \o Cells(t, @[Len(@)].a)]

\* Replace the matches among the captures (of the current normalized text).
ReplaceCaps(ns, caps, t) ==
  LET off == Offs(Norm(ns))
      CharAt(b) == Reached(off, b)
      step(acc, cap) ==
        LET i == CharAt(cap[1])
            j == CharAt(cap[2])
            old == SubSeq(ns.n, i, j - 1)
        IN IF cap[3] = 0 THEN acc \o old
           ELSE acc \o Cells(t, IF old # <<>> THEN old[Len(old)].a
                                ELSE IF acc # <<>> THEN acc[Len(acc)].a ELSE 0)
  IN [ns EXCEPT !.n = FoldLeft(step, <<>>, caps)]

\* TransformRange over the characters i .. j-1 of the normalized text, the
\* first `drop` of which are removed.  dest is a sequence of <<char, change>>.
TransformChars(ns, i, j, dest, drop) ==
  LET step(acc, d) ==
        IF d[2] >= 1
        THEN [acc EXCEPT !.out = Append(@, [c |-> d[1], a |-> IF acc.p = 1 THEN 0 ELSE ns.n[acc.p - 1].a])]
        ELSE [p |-> acc.p + 1 - d[2], out |-> Append(acc.out, [c |-> d[1], a |-> ns.n[acc.p].a])]
      r == FoldLeft(step, [p |-> i + drop, out |-> <<>>], dest)
  IN [ns EXCEPT !.n = SubSeq(@, 1, i - 1) \o r.out \o SubSeq(@, j, Len(@))]

\* How many characters a change list consumes.
Consumes(dest) == FoldLeft(LAMBDA n, d : IF d[2] >= 1 THEN n ELSE n + 1 - d[2], 0, dest)

--------------------------------------------------------------------------------
(* Ranges: ref "o" indexes the original, "n" the normalized text; in bytes.   *)

Fail == [ok |-> 0, s |-> 0, e |-> 0]
Ok(s, e) == [ok |-> 1, s |-> s, e |-> e]

\* CoerceRangeToOriginal
\* (off, ooff: the positions of the characters of both texts)
ToOriginalBy(ns, off, ooff, s, e) ==
  IF s = e THEN Ok(s, e)
  ELSE IF s > e \/ s < 0 \/ e > off[Len(off)] THEN Fail
  ELSE Ok(Span(ooff, ns.n[CellAt(off, s)].a)[1], Span(ooff, ns.n[CellAt(off, e - 1)].a)[2])
ToOriginal(ns, ref, s, e) ==
  IF ref = "o" THEN Ok(s, e) ELSE ToOriginalBy(ns, Offs(Norm(ns)), Offs(ns.o), s, e)

\* CoerceRangeToNormalized
ToNormalized(ns, ref, s, e) ==
  IF ref = "n" THEN Ok(s, e)
  ELSE IF s = e THEN Ok(s, e)
  ELSE LET off == Offs(Norm(ns))
           sp  == Spans(ns)
           I   == DOMAIN ns.n
           inside == {i \in I : ns.n[i].a > 0 /\ s <= sp[i][1] /\ sp[i][2] <= e}
           before == {i \in I : sp[i][2] <= e}
       IN IF s > e \/ s < 0 \/ e > ByteLen(ns.o) THEN Fail
          ELSE IF inside # {} THEN Ok(off[MinOf(inside)], off[MaxOf(inside) + 1])
          ELSE IF before # {} THEN Ok(off[MaxOf(before) + 1], off[MaxOf(before) + 1])
          ELSE Fail

\* GetRange, GetOriginalRange: the bytes at the converted range.
Lookup(t, rng) ==
  IF rng.ok = 0 \/ rng.s < 0 \/ rng.s > rng.e \/ rng.e > ByteLen(t)
  THEN [ok |-> 0, b |-> <<>>]
  ELSE [ok |-> 1, b |-> BytesIn(t, rng.s, rng.e)]
GetNorm(ns, ref, s, e) == Lookup(Norm(ns), ToNormalized(ns, ref, s, e))
GetOrig(ns, ref, s, e) == Lookup(ns.o, ToOriginal(ns, ref, s, e))

\* OriginalAlignments: for each byte of the original, a byte range of the
\* normalized text.
InverseAlign(ns) ==
  LET off == Offs(Norm(ns))
      entry(k) ==
        LET mine   == {i \in DOMAIN ns.n : ns.n[i].a = k}
            before == {i \in DOMAIN ns.n : ns.n[i].a < k}
            at     == IF before = {} THEN 0 ELSE off[MaxOf(before) + 1]
        IN IF mine = {} THEN <<at, at>> ELSE <<off[MinOf(mine)], off[MaxOf(mine) + 1]>>
  IN FoldLeft(LAMBDA acc, k : acc \o [b \in 1..W(ns.o[k]) |-> entry(k)],
              <<>>, [k \in 1..Len(ns.o) |-> k])

--------------------------------------------------------------------------------
(* Slices *)

\* The slice holding the characters from .. to-1 of the original (which starts
\* at the byte at) and the cells lo .. hi-1.
Cut(ns, from, to, at, lo, hi) ==
  [o  |-> SubSeq(ns.o, from, to - 1),
   sh |-> IF ns.sh < 0 THEN -1 ELSE ns.sh + at,
   n  |-> Eager([i \in 1..(hi - lo) |->
             [ns.n[lo + i - 1] EXCEPT !.a = IF @ = 0 THEN 0 ELSE @ - (from - 1)]])]

EmptySlice == [o |-> <<>>, sh |-> -1, n |-> <<>>]

\* The slice of the cells lo .. hi-1, with the original from the first one's
\* to the last one's; ooff = Offs(ns.o).
SliceCells(ns, ooff, lo, hi) ==
  IF lo = hi THEN EmptySlice
  ELSE LET from == Mx2(ns.n[lo].a, 1)
       IN Cut(ns, from, ns.n[hi - 1].a + 1, ooff[from], lo, hi)

NoSlice == [ok |-> 0, ns |-> EmptySlice]
Slice(ns, ref, s, e) ==
  LET ooff == Offs(ns.o)
      noff == Offs(Norm(ns))
      off  == IF ref = "o" THEN ooff ELSE noff IN
  IF ~OnBoundary(off, s) \/ ~OnBoundary(off, e) \/ s > e THEN NoSlice
  ELSE IF s = e THEN [ok |-> 1, ns |-> EmptySlice]
  ELSE IF ref = "n"
  THEN [ok |-> 1, ns |-> SliceCells(ns, ooff, Reached(noff, s), Reached(noff, e))]
  ELSE LET r == ToNormalized(ns, ref, s, e)
           i == Reached(ooff, s)
       IN IF r.ok = 0 THEN NoSlice
          ELSE [ok |-> 1, ns |-> Cut(ns, i, Reached(ooff, e), ooff[i],
                                     StartsBefore(noff, r.s) + 1, StartsBefore(noff, r.e) + 1)]

--------------------------------------------------------------------------------
(* Splits.  Behaviours: "rm" removed, "iso" isolated, "prev" / "next" merged  *)
(* with the previous / next piece, "cont" contiguous.                         *)

Behaviours == {"rm", "iso", "prev", "next", "cont"}

\* Merge a capture into the last piece or start a new one; was: flag of the
\* capture before.
MergePieces(caps, Join(_, _)) ==
  FoldLeft(LAMBDA acc, cap :
             IF acc.out # <<>> /\ Join(cap[3], acc.was)
             THEN [was |-> cap[3],
                   out |-> [acc.out EXCEPT ![Len(acc.out)] = <<@[1], cap[2]>>]]
             ELSE [was |-> cap[3], out |-> Append(acc.out, <<cap[1], cap[2]>>)],
           [was |-> 0, out |-> <<>>], caps).out

\* The byte ranges of the pieces a split yields.
Pieces(caps, beh) ==
  CASE beh = "rm"   -> LET kept == SelectSeq(caps, LAMBDA x : x[3] = 0)
                       IN Eager([i \in 1..Len(kept) |-> <<kept[i][1], kept[i][2]>>])
    [] beh = "iso"  -> Eager([i \in 1..Len(caps) |-> <<caps[i][1], caps[i][2]>>])
    [] beh = "prev" -> MergePieces(caps, LAMBDA m, was : m = 1 /\ was = 0)
    [] beh = "cont" -> MergePieces(caps, LAMBDA m, was : m = was)
    [] beh = "next" ->
         LET back == Eager([i \in 1..Len(caps) |->
                        LET x == caps[Len(caps) + 1 - i] IN <<-x[2], -x[1], x[3]>>])
             p    == MergePieces(back, LAMBDA m, was : m = 1 /\ was = 0)
         IN Eager([i \in 1..Len(p) |-> LET x == p[Len(p) + 1 - i] IN <<-x[2], -x[1]>>])

\* (captures are on boundaries)
SplitCaps(ns, caps, beh) ==
  LET p    == Pieces(caps, beh)
      ooff == Offs(ns.o)
      noff == Offs(Norm(ns))
  IN Eager([i \in 1..Len(p) |-> SliceCells(ns, ooff, Reached(noff, p[i][1]), Reached(noff, p[i][2]))])

\* t is a stretch of u.
IsSubText(t, u) ==
  \E i \in 1..(Len(u) - Len(t) + 1) : SubSeq(u, i, i + Len(t) - 1) = t

SplitBy(ns, p, beh) == SplitCaps(ns, FindMatches(p, Norm(ns)), beh)

--------------------------------------------------------------------------------
(* Invariants of a well-formed text (C01). *)
WellFormed(ns) ==
  /\ ns.sh >= -1
  /\ \A i \in DOMAIN ns.n : ns.n[i].a \in 0..Len(ns.o)
  /\ \A i \in 1..(Len(ns.n) - 1) : ns.n[i].a <= ns.n[i + 1].a
=============================================================================
