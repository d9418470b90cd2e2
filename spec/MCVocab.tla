------------------------------- MODULE MCVocab -------------------------------
(* Every short history of a vocabulary: made new or loaded from a file with   *)
(* any ids, then terms added, known and new (C17).                           *)
EXTENDS Vocabulary, MCText

VARIABLES voc, hist
vars == <<voc, hist>>

Terms == {<<>>, <<97>>, <<98>>, <<26085>>, <<65>>}
IdPool == {-1, 0, 1, 2, 7}
\* Files: up to three terms with different ids.
Files == {<<>>} \cup { << <<t, i>> >> : t \in Terms, i \in IdPool }
         \cup { << <<<<97>>, i>>, <<t, j>> >> : t \in {<<98>>, <<26085>>, <<>>}, i \in IdPool, j \in IdPool }
         \cup { << <<<<97>>, i>>, <<<<98>>, j>>, <<<<26085>>, k>> >> : i \in IdPool, j \in IdPool, k \in IdPool }
Bad == {"", "[]", "{\"a\": \"x\"}", "{\"a\": 1", "{\"a\": 1.5}", "nonsense", "{\"a\": 1} trailing"}

Seen == {voc[i][1] : i \in DOMAIN voc}

Init == \/ /\ voc = <<>> /\ hist = <<[op |-> "vnew", probe |-> <<<<97>>, <<>>>>]>>
        \/ \E f \in Files : /\ IsBijection(f) /\ voc = f
                            /\ hist = <<[op |-> "vload", bad |-> 0, v |-> f, raw |-> "", probe |-> <<<<98>>>>]>>
        \/ \E b \in Bad : /\ voc = <<>>
                          /\ hist = <<[op |-> "vload", bad |-> 1, v |-> <<>>, raw |-> b, probe |-> <<>>]>>

Add(t) == /\ voc' = AddTerm(voc, t)
          /\ hist' = Append(hist, [op |-> "vadd", t |-> t, probe |-> <<>>])
          /\ Len(hist') = MaxDepth => Emit("voc", hist', [x |-> 0], [x |-> 0])
Next == Len(hist) < MaxDepth /\ (hist[1].op = "vload" => hist[1].bad = 0) /\ \E t \in Terms : Add(t)
Failing == (Len(hist) = 1 /\ hist[1].op = "vload" /\ hist[1].bad = 1) => Emit("voc", hist, [x |-> 0], [x |-> 0])

Spec == Init /\ [][Next]_vars

IdsBijective == IsBijection(voc)
IdsKept == [][\A i \in DOMAIN voc : voc'[i] = voc[i]]_vars
Grows == [][Len(voc') = Len(voc) + 1 \/ voc' = voc]_vars
DenseStaysDense == [][(\A i \in DOMAIN voc : voc[i][2] = i - 1) => (\A i \in DOMAIN voc' : voc'[i][2] = i - 1)]_vars
=============================================================================
