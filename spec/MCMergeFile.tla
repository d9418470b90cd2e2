----------------------------- MODULE MCMergeFile -----------------------------
(* Every merge file of a few lines of every shape (C18), read line by line.   *)
EXTENDS Vocabulary, MCText

VARIABLES file,   \* the lines
          k, voc,
          at, tab, rank, err, phase
vars == <<file, k, voc, at, tab, rank, err, phase>>

A == <<97>>
B == <<98>>
E == <<233>>
SP == <<32>>
Line(x, y) == x \o SP \o y
HashB == <<35, 98>>
Lines == { Line(A, B), Line(B, A), Line(A, A), Line(A, HashB), Line(A, E), Line(E, A \o B), Line(A \o B, B),
           <<>>, A, Line(A, <<>>), Line(<<>>, B), Line(Line(A, B), B), A \o SP \o SP \o B,
           VersionMark, VersionMark \o <<58, 32, 48>>, <<35, 118>>, SP \o VersionMark,
           Line(<<120>>, B), Line(A, <<120>>), Line(B, B), A \o <<9>> \o B, Line(A, B) \o <<13>>, Line(A, B) \o <<13, 13>>, <<13>> }
\* Endings: with or without a last line feed, or with carriage returns.
Glue(ls, e) == FoldLeft(LAMBDA t, i : t \o ls[i] \o (IF i = Len(ls) /\ e = 0 THEN <<>>
                                                   ELSE IF e = 2 THEN <<13, 10>> ELSE <<10>>),
                        <<>>, [i \in 1..Len(ls) |-> i])
Voc1 == << <<A, 0>>, <<B, 1>>, <<A \o B, 2>>, <<B \o A, 5>>, <<HashB, 3>>, <<E, 4>>, <<A \o E, 9>>,
           <<A \o A, 7>>, <<E \o B, 8>>, <<<<>>, 6>>, <<E \o A \o B, 10>>, <<A \o B \o B, 11>> >>
Voc2 == << <<A, 3>>, <<B, 0>>, <<A \o B, 1>> >>
LineLists == {<<>>} \cup {<<x>> : x \in Lines} \cup {<<x, y>> : x \in Lines, y \in Lines}
             \cup (IF MaxLen < 3 THEN {} ELSE {<<x, y, z>> : x \in {Line(A, B), VersionMark, Line(B, A)}, y \in Lines, z \in Lines})

Init == /\ file \in {Glue(ls, e) : ls \in LineLists, e \in 0..2}
        /\ k \in 0..3
        /\ voc \in {Voc1, Voc2}
        /\ at = 0 /\ tab = <<>> /\ rank = 0 /\ err = 0 /\ phase = "read"

\* One line, as the code reads it.
Read ==
  /\ phase = "read" /\ err = 0 /\ at < Len(FileLines(file))
  /\ at' = at + 1
  /\ LET l == FileLines(file)[at + 1]
         sp == {i \in DOMAIN l : l[i] = 32}
         bad == err' = at + 1 /\ UNCHANGED <<tab, rank>>
     IN IF IsComment(l) THEN UNCHANGED <<tab, rank, err>>
        ELSE IF Cardinality(sp) # 1 THEN bad
        ELSE LET j == MinOf(sp)
                 x == SubSeq(l, 1, j - 1)
                 y == SubSeq(l, j + 1, Len(l))
             IN IF ~(HasTerm(voc, x) /\ HasTerm(voc, y)) THEN bad
                ELSE IF k > ByteLen(y) \/ ~IsBoundary(y, k) THEN bad
                ELSE IF ~HasTerm(voc, x \o CutBytes(y, k)) THEN bad
                ELSE /\ tab' = SetMerge(tab, IdOf(voc, x), IdOf(voc, y), rank, IdOf(voc, x \o CutBytes(y, k)))
                     /\ rank' = rank + 1 /\ UNCHANGED err
  /\ UNCHANGED <<file, k, voc, phase>>
Finish == /\ phase = "read" /\ (err # 0 \/ at = Len(FileLines(file)))
          /\ phase' = "end" /\ UNCHANGED <<file, k, voc, at, tab, rank, err>>
          /\ Emit("fn", <<[op |-> "mload", v |-> voc, k |-> k, t |-> file, bad |-> 0, how |-> ""]>>, [x |-> 0], [x |-> 0])
Next == Read \/ Finish
Spec == Init /\ [][Next]_vars

Agrees == phase = "end" => LET q == LoadMerges(voc, k, file) IN
            /\ q.err = err
            /\ err = 0 => Rng(q.m) = Rng(tab)
\* Ranks count merge lines; one merge per pair, the last.
OnePerPair == \A i, j \in DOMAIN tab : (tab[i][1] = tab[j][1] /\ tab[i][2] = tab[j][2]) => i = j
RanksInOrder == \A i \in 1..(Len(tab) - 1) : tab[i][3] < tab[i + 1][3]
RanksBelow == \A i \in DOMAIN tab : tab[i][3] < rank
=============================================================================
