-------------------------------- MODULE Bpe --------------------------------
(* Byte pair encoding (package models/bpemodel).  A word is a sequence of    *)
(* symbols [id, len], len being the bytes of the word it stands for.         *)
EXTENDS Vocabulary

MergeHit(m, l, r) == {i \in DOMAIN m : m[i][1] = l /\ m[i][2] = r}

\* The positions where a merge applies.
Applicable(w, m) == {i \in 1..(Len(w) - 1) : MergeHit(m, w[i].id, w[i + 1].id) # {}}
MergeAt(w, m, i) == m[CHOOSE k \in MergeHit(m, w[i].id, w[i + 1].id) : TRUE]
Merged(w, m, i) == SubSeq(w, 1, i - 1)
                   \o <<[id |-> MergeAt(w, m, i)[4], len |-> w[i].len + w[i + 1].len]>>
                   \o SubSeq(w, i + 2, Len(w))

\* The next merge: lowest rank, leftmost among equals; 0 if none applies.
BestMerge(w, m) ==
  FoldLeft(LAMBDA acc, i :
             LET hit == MergeHit(m, w[i].id, w[i + 1].id) IN
             IF hit = {} THEN acc
             ELSE LET r == m[MinOf(hit)][3] IN
                  IF acc.at = 0 \/ r < acc.rank THEN [at |-> i, rank |-> r] ELSE acc,
           [at |-> 0, rank |-> 0], [i \in 1..(Len(w) - 1) |-> i]).at

RECURSIVE MergeAll(_, _)
MergeAll(w, m) ==
  LET i == BestMerge(w, m) IN IF i = 0 THEN w ELSE MergeAll(Merged(w, m, i), m)

\* Everything that some sequence of applicable merges can produce (dropout).
RECURSIVE ReachFrom(_, _, _)
ReachFrom(front, seen, m) ==
  LET next == UNION {{Merged(w, m, i) : i \in Applicable(w, m)} : w \in front} \ seen
  IN IF next = {} THEN seen ELSE ReachFrom(next, seen \cup next, m)
Reachable(w, m) == ReachFrom({w}, {w}, m)

--------------------------------------------------------------------------------
(* How often dropout gives which word.  In every round the applicable merges  *)
(* are gone through, best first; each is skipped with probability q / 4,      *)
(* independently, and the first that is not skipped is performed; when all    *)
(* are skipped the word is done.  Stated for words in which no two applicable *)
(* merges ever share a symbol (none is ever made obsolete by another one).    *)

Disjoint(w, m) == LET A == Applicable(w, m) IN \A i \in A : (i + 1) \notin A

\* The applicable positions, best first.
ByRank(w, m) ==
  SortSeq(SetToSeq(Applicable(w, m)),
          LAMBDA i, j : LET r == MergeAt(w, m, i)[3]  s == MergeAt(w, m, j)[3]
                        IN r < s \/ (r = s /\ i < j))

AllCases == 100000000

\* One round from w, which is reached in share of AllCases cases: the share left
\* for w itself, and pairs <<word, share>>.
Round(w, share, m, q) ==
  FoldLeft(LAMBDA acc, i : LET skipped == (acc.left * q) \div 4 IN
             [left |-> skipped, to |-> Append(acc.to, <<Merged(w, m, i), acc.left - skipped>>)],
           [left |-> share, to |-> <<>>], ByRank(w, m))

\* Rounds from the words of dist, a sequence of pairs <<word, share>>; the
\* pairs of the words that are done are appended to done.
RECURSIVE Shares(_, _, _, _)
Shares(dist, done, m, q) ==
  IF dist = <<>> THEN done
  ELSE LET rs   == Eager([k \in 1..Len(dist) |-> Round(dist[k][1], dist[k][2], m, q)])
           to   == FlattenSeq([k \in 1..Len(rs) |-> rs[k].to])
           all  == SetToSeq({x[1] : x \in Rng(to)})
           next == Eager([k \in 1..Len(all) |->
                     <<all[k], FoldLeft(LAMBDA n, x : IF x[1] = all[k] THEN n + x[2] ELSE n, 0, to)>>])
       IN Shares(next, done \o [k \in 1..Len(dist) |-> <<dist[k][1], rs[k].left>>], m, q)

\* count of 10000 tries is what to expect of something that happens in share of
\* AllCases cases (nine standard deviations, and more for what is rare).
AsExpected(count, share) ==
  LET x == share \div 10000
      d == count - x
  IN d * d <= 81 * ((x * (10000 - x)) \div 10000) + 281

--------------------------------------------------------------------------------
(* The model: mo = [v (vocabulary), m (merges), unk, fuse, pre, suf]; an empty *)
(* text disables unk, pre, suf.                                              *)

UnkError == "unk-oov"

\* Fusion joins an unknown character to an unknown token just before it.
InitialWord(mo, t) ==
  LET step(acc, i) ==
        LET key == (IF i > 1 THEN mo.pre ELSE <<>>) \o <<t[i]>>
                   \o (IF i = Len(t) THEN mo.suf ELSE <<>>)
            n   == Len(acc.w)
        IN IF HasTerm(mo.v, key)
           THEN [w |-> Append(acc.w, [id |-> IdOf(mo.v, key), len |-> W(t[i])]), unk |-> FALSE]
           ELSE IF mo.unk = <<>> THEN acc             \* dropped: see DropsUnknown
           ELSE IF acc.unk /\ mo.fuse = 1
           THEN [acc EXCEPT !.w[n].len = @ + W(t[i])]
           ELSE [w |-> Append(acc.w, [id |-> IdOf(mo.v, mo.unk), len |-> W(t[i])]), unk |-> TRUE]
  IN FoldLeft(step, [w |-> <<>>, unk |-> FALSE], [i \in 1..Len(t) |-> i]).w

\* Known deviation (known_findings.txt): without an unknown token, a character
\* that is not in the vocabulary is dropped and later offsets shift.
DropsUnknown(mo, t) ==
  mo.unk = <<>> /\ ByteLen(t) # FoldLeft(LAMBDA n, s : n + s.len, 0, InitialWord(mo, t))

\* Tokens <<id, text, start, end>>.
TokensOf(mo, w) ==
  FoldLeft(LAMBDA acc, s :
             LET at == IF acc = <<>> THEN 0 ELSE acc[Len(acc)][4]
             IN Append(acc, <<s.id, TermOf(mo.v, s.id), at, at + s.len>>), <<>>, w)

\* A merge may lead to an id without term, which has no token.
HasTerms(mo, w) == \A i \in DOMAIN w : HasId(mo.v, w[i].id)

BpeTokenize(mo, t) ==
  IF t = <<>> THEN [err |-> "", ts |-> <<>>]
  ELSE IF mo.unk # <<>> /\ ~HasTerm(mo.v, mo.unk) THEN [err |-> UnkError, ts |-> <<>>]
  ELSE LET w == MergeAll(InitialWord(mo, t), mo.m)
       IN IF HasTerms(mo, w) THEN [err |-> "", ts |-> TokensOf(mo, w)]
          ELSE [err |-> "other", ts |-> <<>>]

\* All results dropout allows.
BpeDropoutResults(mo, t) ==
  {TokensOf(mo, w) : w \in Reachable(InitialWord(mo, t), mo.m)}

\* outs: pairs <<tokens, how often in 10000 tries>>.
DropoutShares(mo, t, q, outs) ==
  LET w == InitialWord(mo, t)
      count(ts) == FoldLeft(LAMBDA n, x : IF x[1] = ts THEN x[2] ELSE n, 0, outs)
      shares == Shares(<<<<w, AllCases>>>>, <<>>, mo.m, q)
  IN (\A x \in Reachable(w, mo.m) : Disjoint(x, mo.m)) =>
     \A k \in DOMAIN shares : AsExpected(count(TokensOf(mo, shares[k][1])), shares[k][2])

Tiles(ts, t) ==
  LET B == Rng(Offs(t)) IN
  IF t = <<>> THEN ts = <<>>
  ELSE /\ ts # <<>> /\ ts[1][3] = 0 /\ ts[Len(ts)][4] = ByteLen(t)
       /\ \A i \in DOMAIN ts : ts[i][3] < ts[i][4] /\ ts[i][3] \in B
       /\ \A i \in 1..(Len(ts) - 1) : ts[i][4] = ts[i + 1][3]
=============================================================================
