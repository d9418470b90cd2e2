---------------------------- MODULE MCNormalizers ----------------------------
(* The normalizers with all their options, on every short text over           *)
(* characters of every class (C19, C20), also after earlier edits.            *)
EXTENDS NormStrOps, MCText

VARIABLES ns, hist, done
vars == <<ns, hist, done>>
View == <<ns, IF done THEN hist ELSE <<Len(hist)>>>>

\* Upper case, lower case of another width, accent, spaces, controls which are
\* spaces, other controls, removed characters, Chinese, look-alikes of them.
Classes == {0, 9, 32, 65, 97, 133, 159, 304, 769, 8203, 12288, 26085, 65533}
More == Classes \cup {10, 13, 127, 160, 201, 233, 2307, 1160, 888, 931, 962, 57344, 8232, 12353, 44032, 11904, 64256,
                      131072, 178208, 63, 128512}
Alphabet == IF Prop = "C19" THEN Classes ELSE {32, 65, 160, 304, 26085, 97}
Starts == TextsUpTo(Alphabet, MaxLen)
          \cup TextsUpTo(More, 2)

Bit == {0, 1}
BertZ == { [k |-> "bert", cl |-> a, cj |-> b, ac |-> c, lo |-> d] : a \in Bit, b \in Bit, c \in Bit, d \in Bit }
         \cup { [k |-> "bert", cl |-> 1, cj |-> 1, ac |-> 1, lo |-> 1, def |-> 1] }

Single == { [k |-> "lower"], [k |-> "strip", l |-> 1, r |-> 0], [k |-> "strip", l |-> 0, r |-> 1],
            [k |-> "strip", l |-> 1, r |-> 1], [k |-> "strip", l |-> 0, r |-> 0] }
Stop == { [k |-> "fail", e |-> "E1"], [k |-> "markfail", t |-> <<32, 97>>, e |-> "E2"] }
Marks == { [k |-> "mark", t |-> <<32>>], [k |-> "mark", t |-> <<65, 26085>>] }
Members == Single \cup Stop \cup Marks
Seq2 == { [k |-> "seq", zs |-> <<x, y>>] : x \in Members, y \in Members }
Seqs == { [k |-> "seq", zs |-> <<>>], [k |-> "seq", zs |-> <<[k |-> "seq", zs |-> <<>>], [k |-> "lower"]>>] }
        \cup Seq2
        \cup { [k |-> "seq", zs |-> <<z, x>>] : z \in { [k |-> "seq", zs |-> <<s, t>>] : s \in Stop \cup {[k |-> "lower"]}, t \in Marks },
                                                x \in Members }
        \cup { [k |-> "seq", zs |-> <<x, z>>] : z \in { [k |-> "seq", zs |-> <<s, t>>] : s \in Marks, t \in Stop \cup {[k |-> "lower"]} },
                                                x \in Single }

Focus == IF Prop = "C19" THEN BertZ ELSE Single \cup Seqs

Setup == { [op |-> "prepend", x |-> 1, t |-> <<26085>>],
           [op |-> "append", x |-> 1, t |-> <<32, 769>>],
           [op |-> "replace", x |-> 1, p |-> [k |-> "rune", c |-> 97], t |-> <<26085, 32>>],
           [op |-> "replace", x |-> 1, p |-> [k |-> "rune", c |-> 32], t |-> <<>>],
           [op |-> "upper", x |-> 1],
           [op |-> "nz", x |-> 1, z |-> [k |-> "bert", cl |-> 0, cj |-> 1, ac |-> 0, lo |-> 0]],
           [op |-> "nz", x |-> 1, z |-> [k |-> "bert", cl |-> 1, cj |-> 0, ac |-> 0, lo |-> 0]] }

Step(e, last) ==
  LET q == NSEdit(ns, e) IN
  /\ ns' = q.ns
  /\ done' = last
  /\ hist' = Append(hist, e)
  /\ last => Emit("ns", Append(hist, e), [objs |-> <<NSProj(ns)>>], [r |-> [err |-> q.err], objs |-> <<NSProj(q.ns)>>])

Init == /\ \E t \in Starts : ns = NSNew(t) /\ hist = <<[op |-> "new", t |-> t]>>
        /\ done = FALSE
Next == /\ ~done
        /\ \/ Len(hist) < MaxDepth /\ Len(hist[1].t) <= 3 /\ \E e \in Setup : Step(e, FALSE)
           \/ \E z \in Focus : Step([op |-> "nz", x |-> 1, z |-> z], TRUE)
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
WellAligned == WellFormed(ns)
LastZ == hist[Len(hist)].z

\* C19, said without the steps: what is left of a text that had no edits.
Gone(z, c) == \/ z.cl = 1 /\ (c = 0 \/ c = 65533 \/ (c \notin {9, 10, 13} /\ IsOther(c)))
              \/ z.ac = 1 /\ IsMn(c)
Mapped1(z, c) ==
  LET x == IF z.cl = 1 /\ (c \in {9, 10, 13} \/ IsWhite(c)) THEN 32 ELSE c
      y == IF z.lo = 1 THEN ToLow(x) ELSE x
  IN IF z.cj = 1 /\ IsCjk(c) THEN <<32, y, 32>> ELSE <<y>>
BertSaid == (done /\ Prop = "C19" /\ Len(hist) = 2) =>
  LET t == hist[1].t
      z == LastZ
      kept == SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i : ~Gone(z, t[i]))
  IN /\ Norm(ns) = FoldLeft(LAMBDA s, i : s \o Mapped1(z, t[i]), <<>>, kept)
     /\ [i \in 1..Len(ns.n) |-> ns.n[i].a] = FoldLeft(LAMBDA s, i : s \o [k \in 1..Len(Mapped1(z, t[i])) |-> i], <<>>, kept)

\* Each kind of cleaning is idempotent, except the one that inserts spaces.
Idempotent == (done /\ Prop = "C19" /\ LastZ.cj = 0) => Norm(Bert(LastZ, ns)) = Norm(ns)

\* C20: sequences are associative.
RECURSIVE Flat(_)
Flat(z) == IF z.k = "seq" THEN FoldLeft(LAMBDA s, y : s \o Flat(y), <<>>, z.zs) ELSE <<z>>
Flattens == (done /\ Prop = "C20" /\ Len(hist) = 2) =>
  Normalize([k |-> "seq", zs |-> Flat(LastZ)], NSNew(hist[1].t)) = Normalize(LastZ, NSNew(hist[1].t))
=============================================================================
