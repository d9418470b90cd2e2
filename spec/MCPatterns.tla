----------------------------- MODULE MCPatterns -----------------------------
(* Every pattern of a small family on every short text (C09), and every      *)
(* range and index of every short text (C25).                                *)
EXTENDS Patterns, MCText

VARIABLES text, caps, ev
vars == <<text, caps, ev>>

a == 97
ee == 233
ja == 26085
sm == 128512
qu == 39
ss == 115
sp == 32
Alphabet == IF Prop = "C25" THEN {a, ee, ja, sm} ELSE {a, ee, ja}
Mixed == {sp, a, qu, ss, 48, 46}     \* for the two default expressions

\* The members of a set of characters in some order.
Listed(S) == SetToSeq(S)

Plain ==
  { [k |-> "fn", neg |-> n, set |-> Listed(s)] : n \in {0, 1}, s \in SUBSET Alphabet }
  \cup { [k |-> "rune", c |-> c] : c \in Alphabet \cup {sp} }
  \cup { [k |-> "str", t |-> t] : t \in TextsUpTo(Alphabet, 2) \cup {<<a, ee, a>>, <<46>>, <<42>>} }
  \cup { [k |-> "rx", eng |-> g, q |-> q, neg |-> n, set |-> Listed(s)] :
         g \in {"go", "re2"}, q \in {"1", "+", "*"}, n \in {0, 1}, s \in (SUBSET Alphabet) \ {{}} }
  \cup { [k |-> "cls", name |-> c, neg |-> 0] : c \in {"ws", "pu"} }
  \cup { [k |-> "err", e |-> "E1"] }
Invs(S) == { [k |-> "inv", p |-> p] : p \in S }
Defaults == { [k |-> "wd"], [k |-> "bl"] }

Result(p, t) == IF PatError(p) # "" THEN [err |-> PatError(p), caps |-> <<>>]
                ELSE [err |-> "", caps |-> FindMatches(p, t)]

Fm(p) == LET e == [op |-> "fm", p |-> p, t |-> text] IN
         /\ ev' = <<e>>
         /\ caps' = Result(p, text).caps
         /\ Emit("fn", <<e>>, [x |-> 0], [r |-> Result(p, text)])
         /\ UNCHANGED text

Cv(s, e) == LET x == [op |-> "cv", t |-> text, s |-> s, e |-> e] IN
            /\ ev' = <<x>> /\ UNCHANGED <<text, caps>>
            /\ Emit("fn", <<x>>, [x |-> 0], [r |-> [a |-> ToCharOffsets(text, s, e)]])
Isb(i) == LET x == [op |-> "isb", t |-> text, i |-> i] IN
          /\ ev' = <<x>> /\ UNCHANGED <<text, caps>>
          /\ Emit("fn", <<x>>, [x |-> 0], [r |-> [b |-> IF IsBoundary(text, i) THEN 1 ELSE 0]])

Init == /\ text \in TextsUpTo(Alphabet, MaxLen) \cup (IF Prop = "C09" THEN TextsUpTo(Mixed, MaxLen) ELSE {})
        /\ caps = <<>> /\ ev = <<>>

Next == /\ ev = <<>>
        /\ IF Prop = "C25"
           THEN \/ \E s, e \in Rng(Offs(text)) : s <= e /\ Cv(s, e)
                \/ \E i \in -2..(ByteLen(text) + 2) : Isb(i)
           ELSE \/ Rng(text) \subseteq Alphabet /\ \E p \in Plain \cup Invs(Plain) \cup Invs(Invs({[k |-> "rune", c |-> a]})) : Fm(p)
                \/ Rng(text) \subseteq Mixed /\ \E p \in Defaults \cup Invs(Defaults) : Fm(p)

Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
\* C09: captures cover the text, in order, contiguously; stretches between
\* matches are single captures.
Covering == (ev # <<>> /\ Prop = "C09" /\ PatError(ev[1].p) = "") =>
  /\ Covers(caps, text)
  /\ ev[1].p.k # "inv" => \A i \in 1..(Len(caps) - 1) : caps[i][3] = 1 \/ caps[i + 1][3] = 1
  /\ text = <<>> => Len(caps) = 1
  \* inverting twice gives the same
  /\ FindMatches([k |-> "inv", p |-> [k |-> "inv", p |-> ev[1].p]], text) = caps

\* C25: conversion is monotone and exact on boundaries.
Converting == (ev # <<>> /\ Prop = "C25" /\ ev[1].op = "cv") =>
  LET r == ToCharOffsets(text, ev[1].s, ev[1].e)
  IN r[1] <= r[2] /\ Offs(text)[r[1] + 1] = ev[1].s /\ Offs(text)[r[2] + 1] = ev[1].e
=============================================================================
