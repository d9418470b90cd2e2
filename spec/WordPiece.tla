------------------------------ MODULE WordPiece ------------------------------
(* WordPiece (package models/wordpiecemodel): mo = [v, unk, pre, max].        *)
EXTENDS Vocabulary

WPUnkError == "unk-oov"

PieceAt(mo, t, i, j) == (IF i > 1 THEN mo.pre ELSE <<>>) \o SubSeq(t, i, j - 1)

\* The lengths of the terms.
TermLengths(v) == {Len(v[x][1]) : x \in DOMAIN v}

\* Greedy longest match from character i, which starts at the byte at; bad if
\* some position has no piece.
RECURSIVE Greedy(_, _, _, _, _, _)
Greedy(mo, t, lens, i, at, acc) ==
  IF i > Len(t) THEN [bad |-> FALSE, ts |-> acc]
  ELSE LET own  == i - (IF i > 1 THEN Len(mo.pre) ELSE 0)
           ends == {j \in {own + l : l \in lens} : /\ i < j /\ j <= Len(t) + 1
                                                 /\ HasTerm(mo.v, PieceAt(mo, t, i, j))}
       IN IF ends = {} THEN [bad |-> TRUE, ts |-> <<>>]
          ELSE LET j == MaxOf(ends)
                   p == PieceAt(mo, t, i, j)
                   to == at + ByteLen(SubSeq(t, i, j - 1))
               IN Greedy(mo, t, lens, j, to, Append(acc, <<IdOf(mo.v, p), p, at, to>>))

WpTokenize(mo, t) ==
  LET r   == IF Len(t) > mo.max THEN [bad |-> TRUE, ts |-> <<>>] ELSE Greedy(mo, t, TermLengths(mo.v), 1, 0, <<>>)
  IN IF ~r.bad THEN [err |-> "", ts |-> r.ts]
     ELSE IF ~HasTerm(mo.v, mo.unk) THEN [err |-> WPUnkError, ts |-> <<>>]
     ELSE [err |-> "", ts |-> <<<<IdOf(mo.v, mo.unk), mo.unk, 0, ByteLen(t)>>>>]
=============================================================================
