----------------------------- MODULE Vocabulary -----------------------------
(* Vocabularies (package vocabulary): sequences of pairs <<term, id>>, terms *)
(* being texts; and merge tables (package models/bpemodel): sequences of     *)
(* <<left id, right id, rank, merged id>>, one per pair of ids.              *)
EXTENDS Text

NoId == -1000000

HasTerm(v, t) == \E i \in DOMAIN v : v[i][1] = t
IdOf(v, t) == LET hit == {i \in DOMAIN v : v[i][1] = t}
              IN IF hit = {} THEN NoId ELSE v[CHOOSE i \in hit : TRUE][2]
HasId(v, id) == \E i \in DOMAIN v : v[i][2] = id
TermOf(v, id) == v[CHOOSE i \in DOMAIN v : v[i][2] = id][1]

IsBijection(v) == /\ Cardinality({v[i][1] : i \in DOMAIN v}) = Len(v)
                  /\ Cardinality({v[i][2] : i \in DOMAIN v}) = Len(v)

\* Adding a term.  The new id is the number of terms where that is free; the
\* specification only asks for some free id otherwise (the code takes the next
\* free one).
NextId(v) == CHOOSE id \in Len(v)..(2 * Len(v)) :
               ~HasId(v, id) /\ \A k \in Len(v)..(id - 1) : HasId(v, k)
AddTerm(v, t) == IF HasTerm(v, t) THEN v ELSE Append(v, <<t, NextId(v)>>)

--------------------------------------------------------------------------------
(* Merge files.  A file is a sequence of characters (as bytes would decode);  *)
(* lines end with LF, an optional CR before it is not part of the line, and   *)
(* an empty last line does not count.                                        *)

SplitOn(t, sep) ==
  LET r == FoldLeft(LAMBDA acc, i :
             IF t[i] = sep THEN [from |-> i + 1, out |-> Append(acc.out, SubSeq(t, acc.from, i - 1))] ELSE acc,
             [from |-> 1, out |-> <<>>], [i \in 1..Len(t) |-> i])
  IN Append(r.out, SubSeq(t, r.from, Len(t)))

StripCR(l) == IF l # <<>> /\ l[Len(l)] = 13 THEN SubSeq(l, 1, Len(l) - 1) ELSE l

FileLines(t) ==
  LET parts == SplitOn(t, 10)
      n     == IF parts[Len(parts)] = <<>> THEN Len(parts) - 1 ELSE Len(parts)
  IN Eager([i \in 1..n |-> StripCR(parts[i])])

VersionMark == <<35, 118, 101, 114, 115, 105, 111, 110>>    \* #version
IsComment(l) == Len(l) >= 8 /\ SubSeq(l, 1, 8) = VersionMark

\* The merge table a file gives, or the (physical) line loading fails at.
\* A term is cut after a number of bytes; on texts, that leaves a character
\* sequence only at a character boundary, and a term cut elsewhere is in no
\* vocabulary of valid texts.
CutBytes(t, k) == SubSeq(t, CharsBefore(t, k) + 1, Len(t))

SetMerge(m, l, r, rank, id) ==
  LET rest == SelectSeq(m, LAMBDA x : ~(x[1] = l /\ x[2] = r))
  IN Append(rest, <<l, r, rank, id>>)

LoadMerges(v, k, t) ==
  LET lines == FileLines(t)
      step(acc, i) ==
        IF acc.err # 0 \/ IsComment(lines[i]) THEN acc
        ELSE LET terms == SplitOn(lines[i], 32)
                 bad   == [acc EXCEPT !.err = i]
             IN IF Len(terms) # 2 THEN bad
                ELSE IF ~HasTerm(v, terms[1]) \/ ~HasTerm(v, terms[2]) THEN bad
                ELSE IF k > ByteLen(terms[2]) \/ ~IsBoundary(terms[2], k) THEN bad
                ELSE LET merged == terms[1] \o CutBytes(terms[2], k)
                     IN IF ~HasTerm(v, merged) THEN bad
                        ELSE [acc EXCEPT !.rank = @ + 1,
                              !.m = SetMerge(@, IdOf(v, terms[1]), IdOf(v, terms[2]),
                                             acc.rank, IdOf(v, merged))]
  IN FoldLeft(step, [err |-> 0, rank |-> 0, m |-> <<>>], [i \in 1..Len(lines) |-> i])
=============================================================================
