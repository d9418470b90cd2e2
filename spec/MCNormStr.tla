------------------------------ MODULE MCNormStr ------------------------------
(* Every short history of edits, slices and splits of a pool of texts, over  *)
(* small alphabets with characters of one to four bytes (C01 to C08).        *)
(*                                                                           *)
(* From every text reached by up to MaxDepth - 1 setup steps, every event of *)
(* the property's focus is taken with all its small arguments, and printed   *)
(* as a test case for the real code.                                         *)
EXTENDS NormStrOps, MCText

VARIABLES objs,   \* the pool
          hist,   \* the events so far
          done    \* whether the last event was one of the focus

vars == <<objs, hist, done>>
View == <<objs, Len(hist), done>>

a == 97   \* one byte
z == 122
sp == 32
ee == 233 \* two bytes
kk == 8490 \* KELVIN SIGN: three bytes, lower case k: one byte
ja == 26085 \* three bytes
sm == 128512 \* four bytes

Alphabet == CASE Prop = "C02" -> {a, sp, kk}
              [] Prop \in {"C05", "C06"} -> {a, ee}
              [] Prop = "C08" -> {a, ee}
              [] OTHER -> {a, ee, ja}
Starts == TextsUpTo(Alphabet, MaxLen)

Rx(eng, q, neg, set) == [k |-> "rx", eng |-> eng, q |-> q, neg |-> neg, set |-> set]
Pats == { [k |-> "rune", c |-> a], [k |-> "rune", c |-> ee], [k |-> "str", t |-> <<a, ee>>], [k |-> "str", t |-> <<>>],
          Rx("re2", "*", 0, <<a>>), Rx("go", "*", 0, <<a>>), Rx("re2", "+", 1, <<a>>), Rx("go", "1", 0, <<ee>>),
          [k |-> "inv", p |-> [k |-> "rune", c |-> a]], [k |-> "err", e |-> "E1"] }

--------------------------------------------------------------------------------
(* Setup: a few steps of every shape. *)
Setup(x) ==
  { [op |-> "filter", x |-> x, p |-> [k |-> "fn", neg |-> 1, set |-> <<a>>]],
    [op |-> "map", x |-> x, m |-> <<<<a, ja>>>>],
    [op |-> "map", x |-> x, m |-> <<<<ee, a>>>>],
    [op |-> "prepend", x |-> x, t |-> <<ja>>],
    [op |-> "append", x |-> x, t |-> <<a, ee>>],
    [op |-> "replace", x |-> x, p |-> Rx("re2", "*", 0, <<z>>), t |-> <<a>>],
    [op |-> "replace", x |-> x, p |-> [k |-> "rune", c |-> ee], t |-> <<a, a>>] }
  \cup (LET n == Norm(objs[x])
           off == Offs(n)
           k == Len(n)
       IN IF k >= 2
          THEN { [op |-> "tr", x |-> x, ref |-> "n", s |-> 0, e |-> off[k + 1], via |-> "range",
                  dest |-> <<<<ee, -1>>>>, io |-> 0],
                 [op |-> "slice", x |-> x, ref |-> "n", s |-> off[2], e |-> off[k + 1]],
                 [op |-> "slice", x |-> x, ref |-> "n", s |-> 0, e |-> off[k]] }
          ELSE {})
  \cup (LET off == Offs(objs[x].o)
           k == Len(objs[x].o)
       IN IF k >= 2 THEN { [op |-> "slice", x |-> x, ref |-> "o", s |-> off[2], e |-> off[k + 1]],
                           [op |-> "split", x |-> x, p |-> [k |-> "rune", c |-> a], beh |-> "prev"] } ELSE {})

--------------------------------------------------------------------------------
(* Focus *)

Texts2 == {<<>>, <<ee>>, <<a, ja>>}
Preds == { [k |-> "fn", neg |-> n, set |-> s] : n \in {0, 1}, s \in {<<a>>, <<ee, kk>>, <<>>} }
         \cup { [k |-> "cls", name |-> "ws", neg |-> n] : n \in {0, 1} }

Dests == LET D == {<<sm, 1>>, <<a, 1>>, <<ee, 0>>, <<ja, -1>>, <<a, -2>>} IN
         {<<>>} \cup {<<d>> : d \in D} \cup {<<d, f>> : d \in D, f \in D}

\* All covers of a text of k characters by flagged captures of one to two
\* characters, with at most one empty capture.
RECURSIVE CoverFrom(_, _, _)
CoverFrom(off, i, hole) ==
  IF i = Len(off) THEN IF hole THEN {<<>>} \cup {<< <<off[i], off[i], m>> >> : m \in {0, 1}} ELSE {<<>>}
  ELSE UNION { LET rest == CoverFrom(off, j, hole) IN
               { << <<off[i], off[j], m>> >> \o r : m \in {0, 1}, r \in rest }
               : j \in {i + 1, i + 2} \cap (1..Len(off)) }
       \cup (IF hole THEN { << <<off[i], off[i], m>> >> \o r : m \in {0, 1}, r \in CoverFrom(off, i, FALSE) } ELSE {})
CoversOf(t) == LET off == Offs(t) IN
  IF t = <<>> THEN { << <<0, 0, m>> >> : m \in {0, 1} }
  ELSE { [k |-> "caps", caps |-> cs] : cs \in CoverFrom(off, 1, Len(t) < 4) }
CoverPats(t) == IF t = <<>> THEN {[k |-> "caps", caps |-> cs] : cs \in CoversOf(t)} ELSE CoversOf(t)

FocusOf(x) ==
  LET ns == objs[x]
      n  == Norm(ns)
      nb == ByteLen(n)
      ob == ByteLen(ns.o)
      refs == {<<"n", nb>>, <<"o", ob>>}
      any(lo, k) == {<<s, e>> : s \in lo..(k - lo), e \in lo..(k - lo)}
  IN CASE Prop = "C02" ->
            { [op |-> "filter", x |-> x, p |-> p] : p \in Preds }
            \cup { [op |-> "map", x |-> x, m |-> m] : m \in {<<<<a, ja>>>>, <<<<kk, a>>, <<a, kk>>>>, <<>>} }
            \cup { [op |-> o, x |-> x] : o \in {"lower", "upper"} }
            \cup { [op |-> "trim", x |-> x, l |-> l, r |-> r, via |-> v] : l \in {0, 1}, r \in {0, 1}, v \in {"plain", "lr"} }
       [] Prop = "C03" ->
            { [op |-> o, x |-> x, t |-> t] : o \in {"prepend", "append"}, t \in Texts2 }
            \cup { [op |-> "replace", x |-> x, p |-> p, t |-> t] : p \in Pats, t \in Texts2 }
       [] Prop = "C04" ->
            LET bounds(t) == {<<s, e>> : s \in Rng(Offs(t)), e \in Rng(Offs(t))}
            IN UNION { { [op |-> "tr", x |-> x, ref |-> r[1], s |-> b[1], e |-> b[2], via |-> "range", dest |-> d, io |-> io]
                         : d \in Dests, io \in 0..2 }
                       : r \in {<<"n", n>>}, b \in {b \in bounds(n) : b[1] <= b[2]} }
               \cup UNION { { [op |-> "tr", x |-> x, ref |-> "o", s |-> b[1], e |-> b[2], via |-> "range", dest |-> d, io |-> io]
                         : d \in {<<>>, <<<<ee, 0>>>>, <<<<sm, 1>>>>, <<<<ja, -1>>, <<a, 1>>>>}, io \in 0..1 }
                       : b \in bounds(ns.o) \cup {<<0, ob + 1>>} }
               \cup { [op |-> "tr", x |-> x, ref |-> "n", s |-> 0, e |-> nb, via |-> "plain", dest |-> d, io |-> io]
                      : d \in Dests, io \in 0..1 }
       [] Prop = "C05" ->
            UNION { { [op |-> o, x |-> x, ref |-> r[1], s |-> b[1], e |-> b[2]] : b \in any(-1, r[2]), o \in ReadOps \ {"oa"} }
                    : r \in refs }
       [] Prop = "C06" -> { [op |-> "oa", x |-> x] }
       [] Prop = "C07" ->
            UNION { { [op |-> "slice", x |-> x, ref |-> r[1], s |-> b[1], e |-> b[2]] : b \in any(-1, r[2]) } : r \in refs }
       [] Prop = "C08" ->
            { [op |-> "split", x |-> x, p |-> p, beh |-> b] : p \in Pats \cup CoverPats(n), b \in Behaviours }
       [] OTHER -> {}

\* C01 takes some of every kind, for validation by Conform.
AllKinds(x) ==
  LET n == Norm(objs[x])
      off == Offs(n)
      k == Len(n)
  IN Setup(x)
     \cup { [op |-> o, x |-> x] : o \in {"lower", "upper"} }
     \cup { [op |-> "trim", x |-> x, l |-> 1, r |-> 1, via |-> "lr"] }
     \cup { [op |-> "replace", x |-> x, p |-> p, t |-> <<ja>>] : p \in Pats }
     \cup { [op |-> "split", x |-> x, p |-> p, beh |-> b] : p \in {Rx("re2", "*", 0, <<a>>), [k |-> "rune", c |-> a]}, b \in Behaviours }
     \cup { [op |-> "slice", x |-> x, ref |-> "n", s |-> off[i], e |-> off[j]] : i \in 1..(k + 1), j \in 1..(k + 1) }
     \cup { [op |-> "tr", x |-> x, ref |-> "n", s |-> off[i], e |-> off[k + 1], via |-> "range", dest |-> d, io |-> 0]
            : i \in 1..k, d \in {<<>>, <<<<sm, 1>>>>, <<<<sm, 1>>, <<ee, 0>>>>} }

--------------------------------------------------------------------------------
Projs(os) == [i \in 1..Len(os) |-> NSProj(os[i])]

Step(e, last) ==
  /\ NSDomain(objs[e.x], e) \/ e.op # "tr"
  /\ LET q == NSApply(objs, e) IN
     /\ objs' = q.objs
     /\ done' = last
     /\ hist' = Append(hist, e)
     /\ last => Emit("ns", Append(hist, e), [objs |-> Projs(objs)], [r |-> q.r, objs |-> Projs(q.objs)])

Init == /\ \E t \in Starts : objs = <<NSNew(t)>> /\ hist = <<[op |-> "new", t |-> t]>>
        /\ done = FALSE

Next == /\ ~done
        /\ \E x \in DOMAIN objs :
             \/ Len(hist) < MaxDepth /\ Len(objs[x].n) <= 6 /\ \E e \in Setup(x) : Step(e, FALSE)
             \/ \E e \in (IF Prop = "C01" THEN AllKinds(x) ELSE FocusOf(x)) : Step(e, TRUE)

Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
(* What the specification guarantees in every state. *)

Bounds(t) == Rng(Offs(t))

\* C01
WellAligned == \A i \in DOMAIN objs : WellFormed(objs[i])

\* C01: the original never changes; a new text's original is a stretch of the one it was cut from.
OriginalsKept ==
  [][/\ \A i \in DOMAIN objs : objs'[i].o = objs[i].o /\ objs'[i].sh = objs[i].sh
     /\ \A i \in DOMAIN objs' : i > Len(objs) => IsSubText(objs'[i].o, objs[hist'[Len(hist')].x].o)]_vars

\* C07: shifts add up: every slice with a known shift is located inside the first text.
Located == \A i \in DOMAIN objs :
  objs[i].sh >= 0 =>
    /\ IsBoundary(objs[1].o, objs[i].sh)
    /\ objs[i].sh + ByteLen(objs[i].o) <= ByteLen(objs[1].o)
    /\ Sub(objs[1].o, objs[i].sh, objs[i].sh + ByteLen(objs[i].o)) = objs[i].o

\* C05: converting a range of whole characters there and back covers it.
RoundTrips == \A i \in DOMAIN objs :
  LET ns == objs[i] IN
  /\ \A s, e \in Bounds(Norm(ns)) :
       s < e => LET r == ToOriginal(ns, "n", s, e)
                    b == ToNormalized(ns, "o", r.s, r.e)
                IN /\ r.ok = 1 /\ IsBoundary(ns.o, r.s) /\ IsBoundary(ns.o, r.e) /\ r.s <= r.e
                   /\ r.s < r.e => b.ok = 1 /\ b.e >= e
                   /\ (r.s < r.e /\ \A j \in DOMAIN ns.n : ns.n[j].a > 0) => b.s <= s
  /\ \A s, e \in Bounds(ns.o) :
       s < e => LET r == ToNormalized(ns, "o", s, e)
                IN r.ok = 1 => IsBoundary(Norm(ns), r.s) /\ IsBoundary(Norm(ns), r.e) /\ r.s <= r.e

\* C06: the inverse alignment is monotone, and agrees with the forward one.
InverseAgrees == \A i \in DOMAIN objs :
  LET ns  == objs[i]
      inv == InverseAlign(ns)
      off == Offs(Norm(ns))
      oo  == Offs(ns.o)
  IN /\ Len(inv) = ByteLen(ns.o)
     /\ \A k \in 1..(Len(inv) - 1) : inv[k][1] <= inv[k + 1][1] /\ inv[k][2] <= inv[k + 1][2]
     /\ \A j \in DOMAIN ns.n : ns.n[j].a > 0 =>
          LET x == inv[oo[ns.n[j].a] + 1] IN x[1] <= off[j] /\ off[j + 1] <= x[2]

\* C07: a slice of a slice is the slice of the sum.
SlicesCompose == \A i \in DOMAIN objs :
  LET ns == objs[i]
      n  == Norm(ns)
  IN \A s, e \in Bounds(n) : s < e =>
       LET q == Slice(ns, "n", s, e).ns IN
       /\ Norm(q) = Sub(n, s, e)
       /\ \A s2, e2 \in Bounds(Norm(q)) : s2 < e2 =>
            LET r1 == Slice(q, "n", s2, e2).ns
                r2 == Slice(ns, "n", s + s2, s + e2).ns
            IN Norm(r1) = Norm(r2) /\ r1.sh = r2.sh /\ r1.o = r2.o

\* C08: the pieces of a split and the removed matches make up the text again.
SplitsRecompose == \A i \in DOMAIN objs :
  LET ns == objs[i]
      n  == Norm(ns)
  IN \A p \in Pats : PatError(p) = "" =>
       \A beh \in Behaviours :
         LET caps == FindMatches(p, n)
             ps   == Pieces(caps, beh)
             gone == IF beh = "rm" THEN FoldLeft(LAMBDA s, c : s + (IF c[3] = 1 THEN c[2] - c[1] ELSE 0), 0, caps) ELSE 0
         IN /\ FoldLeft(LAMBDA s, x : s + x[2] - x[1], gone, ps) = ByteLen(n)
            /\ \A j \in 1..(Len(ps) - 1) : ps[j][2] <= ps[j + 1][1]
            /\ beh # "rm" => \A j \in 1..(Len(ps) - 1) : ps[j][2] = ps[j + 1][1]

Holds == CASE Prop = "C05" -> RoundTrips
           [] Prop = "C06" -> InverseAgrees
           [] Prop = "C07" -> Located /\ (done => SlicesCompose)
           [] Prop = "C08" -> (~done => SplitsRecompose)
           [] OTHER -> Located
=============================================================================
