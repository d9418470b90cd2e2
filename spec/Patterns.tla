------------------------------ MODULE Patterns ------------------------------
(* Split patterns (package splitpattern).  A capture is <<start, end, m>> in *)
(* bytes, m = 1 for a match and 0 for a stretch between matches.             *)
EXTENDS Text

--------------------------------------------------------------------------------
(* Matches, as pairs <<i, j>> of character indices: characters i .. j-1.      *)

\* Every character that satisfies Test, on its own.
CharMatches(t, Test(_)) ==
  FoldLeft(LAMBDA acc, i : IF Test(t[i]) THEN Append(acc, <<i, i + 1>>) ELSE acc,
           <<>>, [i \in 1..Len(t) |-> i])

IsAt(lit, t, i) == /\ i + Len(lit) - 1 <= Len(t)
                   /\ \A j \in 1..Len(lit) : t[i + j - 1] = lit[j]

\* Leftmost non-overlapping occurrences of a literal; none of the empty one.
LiteralMatches(lit, t) ==
  FoldLeft(LAMBDA acc, i :
             IF lit = <<>> \/ i < acc.at \/ ~IsAt(lit, t, i) THEN acc
             ELSE [at |-> i + Len(lit), out |-> Append(acc.out, <<i, i + Len(lit)>>)],
           [at |-> 1, out |-> <<>>], [i \in 1..Len(t) |-> i]).out

\* For each index, the end of the maximal run of characters satisfying Test that
\* starts there (the index itself if its character does not).
RunEnds(t, Test(_)) ==
  LET n == Len(t)
      back == FoldLeft(LAMBDA acc, k :
                Append(acc, LET i == n + 1 - k IN
                            IF ~Test(t[i]) THEN i ELSE IF k = 1 THEN n + 1 ELSE acc[k - 1]),
                <<>>, [k \in 1..n |-> k])
  IN Eager([i \in 1..n |-> back[n + 1 - i]])

\* The matches that are left when each starts at the first index after the one
\* before from which there is a match, and ends where ends says (the index itself
\* if there is none).  With the ends of runs, the expression [...]+
RunMatches(ends) ==
  FoldLeft(LAMBDA acc, i :
             IF i < acc.at \/ ends[i] = i THEN acc
             ELSE [at |-> ends[i], out |-> Append(acc.out, <<i, ends[i]>>)],
           [at |-> 1, out |-> <<>>], [i \in 1..Len(ends) |-> i]).out

\* The expression [...]* : runs, and empty matches elsewhere.  The standard
\* engine drops an empty match right after a match, regexp2 keeps it.
StarMatches(ends, keepAdjacent) ==
  FoldLeft(LAMBDA acc, i :
             LET j == IF i > Len(ends) THEN i ELSE ends[i] IN
             IF i < acc.at THEN acc
             ELSE IF j > i THEN [at |-> j, prev |-> j, out |-> Append(acc.out, <<i, j>>)]
             ELSE IF i # acc.prev \/ keepAdjacent
             THEN [at |-> i + 1, prev |-> i, out |-> Append(acc.out, <<i, i>>)]
             ELSE [acc EXCEPT !.at = i + 1],
           [at |-> 1, prev |-> 0, out |-> <<>>], [i \in 1..(Len(ends) + 1) |-> i]).out

\* The default word expression  \w+|[^\w\s]+
WordMatches(t) ==
  LET we == RunEnds(t, IsReWord)
      oe == RunEnds(t, LAMBDA c : ~IsReWord(c) /\ ~IsReSpace(c))
  IN RunMatches(Eager([i \in 1..Len(t) |-> Mx2(we[i], oe[i])]))

\* The default byte-level expression
\*   's|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)|\s+
\* ignoring case.  ByteLevelEnd gives the end of the match at i, or i if none;
\* runs: the ends of the runs of letters, numbers, others, spaces.
Contractions == << <<115>>, <<116>>, <<114, 101>>, <<118, 101>>, <<109>>, <<108, 108>>, <<100>> >>
ByteLevelEnd(t, runs, i) ==
  LET contr == {k \in DOMAIN Contractions :
                  /\ t[i] = 39
                  /\ i + Len(Contractions[k]) <= Len(t)
                  /\ \A j \in DOMAIN Contractions[k] : ReFold(t[i + j]) = Contractions[k][j]}
      i2 == IF t[i] = 32 THEN i + 1 ELSE i
      OptSpaceRun(ends) ==
        LET a == IF i2 <= Len(t) THEN ends[i2] ELSE i2
        IN IF a > i2 THEN a ELSE ends[i]       \* without the space
      l == OptSpaceRun(runs[1])
      n == OptSpaceRun(runs[2])
      o == OptSpaceRun(runs[3])
      s == runs[4][i]
  IN IF contr # {} THEN i + 1 + Len(Contractions[MinOf(contr)])
     ELSE IF l > i THEN l
     ELSE IF n > i THEN n
     ELSE IF o > i THEN o
     ELSE IF s > i THEN (IF s = Len(t) + 1 THEN s      \* \s+(?!\S) up to the end
                         ELSE IF s - 1 > i THEN s - 1  \* \s+(?!\S) leaves one
                         ELSE s)                       \* \s+
     ELSE i
ByteLevelMatches(t) ==
  LET runs == << RunEnds(t, IsReLetter), RunEnds(t, IsReNumber),
                 RunEnds(t, LAMBDA c : ~IsReSpace(c) /\ ~IsReLetter(c) /\ ~IsReNumber(c)),
                 RunEnds(t, IsReSpace) >>
  IN RunMatches(Eager([i \in 1..Len(t) |-> ByteLevelEnd(t, runs, i)]))

--------------------------------------------------------------------------------
(* Captures *)

\* Tile a text with its matches (pairs of byte positions, in order).
TileBytes(len, ms) ==
  IF len = 0 THEN <<<<0, 0, 0>>>>
  ELSE LET r == FoldLeft(LAMBDA acc, m :
                  [prev |-> m[2],
                   caps |-> acc.caps \o (IF acc.prev # m[1] THEN <<<<acc.prev, m[1], 0>>>> ELSE <<>>)
                                     \o <<<<m[1], m[2], 1>>>>],
                  [prev |-> 0, caps |-> <<>>], ms)
       IN r.caps \o (IF r.prev # len THEN <<<<r.prev, len, 0>>>> ELSE <<>>)

Tile(t, ms) ==
  LET off == Offs(t) IN
  TileBytes(off[Len(off)], Eager([k \in 1..Len(ms) |-> <<off[ms[k][1]], off[ms[k][2]]>>]))

InClass(p, c) == IF p.neg = 1 THEN c \notin Rng(p.set) ELSE c \in Rng(p.set)

ClassRuns(p, t) == RunEnds(t, LAMBDA c : InClass(p, c))

ClassTest(name, c) ==
  CASE name = "ws" -> IsWhite(c)
    [] name = "pu" -> IsPunct(c)
    [] name = "mn" -> IsMn(c)
    [] name = "ot" -> IsOther(c)
    [] OTHER -> FALSE

\* A pattern that fails: a failing one, or an expression out of time.
RECURSIVE PatError(_)
PatError(p) == CASE p.k = "err" -> p.e
                 [] p.k = "inv" -> PatError(p.p)
                 [] p.k = "ms" /\ "to" \in DOMAIN p -> IF p.to = 1 THEN "other" ELSE ""
                 [] OTHER -> ""

\* An expression [set]|... whose second part runs out of time on so many of the
\* same character, and otherwise matches nothing.
OutOfTime == 34
RECURSIVE FailsOn(_, _)
FailsOn(p, t) ==
  CASE p.k = "inv"  -> FailsOn(p.p, t)
    [] p.k = "slow" -> FoldLeft(LAMBDA n, c : IF n >= OutOfTime THEN n ELSE IF c = p.c THEN n + 1 ELSE 0,
                                0, t) >= OutOfTime
    [] OTHER -> FALSE

RECURSIVE FindMatches(_, _)
FindMatches(p, t) ==
  CASE p.k = "fn"   -> Tile(t, CharMatches(t, LAMBDA c : InClass(p, c)))
    [] p.k = "cls"  -> Tile(t, CharMatches(t, LAMBDA c : ClassTest(p.name, c)))
    [] p.k = "rune" -> Tile(t, CharMatches(t, LAMBDA c : c = p.c))
    [] p.k = "str"  -> Tile(t, LiteralMatches(p.t, t))
    [] p.k = "rx"   -> Tile(t, CASE p.q = "+" -> RunMatches(ClassRuns(p, t))
                                 [] p.q = "*" -> StarMatches(ClassRuns(p, t), p.eng = "re2")
                                 [] OTHER     -> CharMatches(t, LAMBDA c : InClass(p, c)))
    [] p.k = "slow" -> Tile(t, CharMatches(t, LAMBDA c : c \in Rng(p.set)))
    [] p.k = "ms"   -> TileBytes(ByteLen(t), p.ms)
    [] p.k = "wd"   -> Tile(t, WordMatches(t))
    [] p.k = "bl"   -> Tile(t, ByteLevelMatches(t))
    [] p.k = "caps" -> p.caps
    [] p.k = "inv"  -> LET cs == FindMatches(p.p, t)
                       IN Eager([i \in 1..Len(cs) |-> <<cs[i][1], cs[i][2], 1 - cs[i][3]>>])

--------------------------------------------------------------------------------
(* What every conforming pattern guarantees (C09). *)
Covers(caps, t) ==
  LET n == Len(caps)
      B == Rng(Offs(t)) IN
  /\ n > 0
  /\ caps[1][1] = 0
  /\ caps[n][2] = ByteLen(t)
  /\ \A i \in 1..n : caps[i][1] <= caps[i][2] /\ caps[i][1] \in B /\ caps[i][2] \in B
  /\ \A i \in 1..(n - 1) : caps[i][2] = caps[i + 1][1]
=============================================================================
