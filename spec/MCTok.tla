-------------------------------- MODULE MCTok --------------------------------
(* Byte-pair models with every small vocabulary, prefix, suffix, unknown      *)
(* token and fusion setting on every short word (C13, C14, C15).  The word is *)
(* built character by character, as the code does it, with a pending unknown  *)
(* symbol.                                                                   *)
EXTENDS Bpe, MCText

VARIABLES mo, text,
          i,      \* characters looked at
          w,      \* symbols so far
          pend,   \* pending unknown symbol: <<>> or <<symbol>>
          phase
vars == <<mo, text, i, w, pend, phase>>

a == 97
ee == 233
ja == 26085
x == 120    \* in no vocabulary
hash == 35
end == 36
unkT == <<63>>
Chars == {a, ja, x}
Words == TextsUpTo(Chars, MaxLen)

Pres == {<<>>, <<hash>>}
Sufs == {<<>>, <<end>>}
\* The forms in which a character is looked up: first, middle, last, only.
Forms(c, pre, suf) == { <<c>>, pre \o <<c>>, pre \o <<c>> \o suf, <<c>> \o suf }

Numbered(ts) == [k \in 1..Len(ts) |-> <<ts[k], k - 1>>]
\* Merges of the first two known forms of a, in order of appearance.
MergeOf(v, pre, n) ==
  LET A == <<a>>
      B == pre \o <<a>>
      J == pre \o <<ja>>
      one(l, r, rank, t) == IF HasTerm(v, l) /\ HasTerm(v, r) THEN << <<IdOf(v, l), IdOf(v, r), rank, IdOf(v, t)>> >> ELSE <<>>
  IN CASE n = 0 -> <<>>
       [] n = 1 -> one(A, B, 0, <<a, a>>)
       [] n = 2 -> one(A, B, 1, <<a, a>>) \o (IF A = B THEN <<>> ELSE one(B, B, 0, <<a, a, a>>))
       [] n = 3 -> one(A, J, 0, <<a, ja>>) \o one(<<a, ja>>, J, 1, <<a, a, a>>) \o one(<<a, a>>, J, 0, <<a, ja>>)
       \* the unknown token takes part
       [] n = 4 -> one(A, unkT, 0, <<a, a>>) \o one(unkT, unkT, 1, <<a, ja>>)
NMerges == CASE Prop = "C13" -> 0..4
             [] Prop = "C15" -> 1..3
             [] MaxDepth = 1 -> {0}          \* C14: results compared
             [] OTHER -> {1, 2, 3, 4}        \* C14: tilings validated

Models ==
  UNION { UNION { { LET known == SetToSeq(F \cup Forms(ja, pre, suf)) \o << <<a, a>>, <<a, a, a>>, <<a, ja>> >>
                        v == IF unk = 2 THEN Numbered(<<unkT>> \o known)
                             ELSE IF unk = 1 THEN Numbered(known \o <<unkT>>) ELSE Numbered(known)
                    IN [k |-> "bpe", v |-> v, m |-> MergeOf(v, pre, n), unk |-> IF unk = 0 THEN <<>> ELSE unkT, fuse |-> f,
                        pre |-> pre, suf |-> suf, cap |-> 100]
                    : n \in NMerges, unk \in {0, 1, 2, 3}, f \in {0, 1} }
                  : F \in (IF Prop = "C14" THEN SUBSET Forms(a, pre, suf) ELSE {Forms(a, pre, suf)}) }
          : pre \in Pres, suf \in Sufs }

Init == /\ mo \in Models /\ text \in Words
        /\ i = 0 /\ w = <<>> /\ pend = <<>> /\ phase = "look"

Key(k) == (IF k > 1 THEN mo.pre ELSE <<>>) \o <<text[k]>> \o (IF k = Len(text) THEN mo.suf ELSE <<>>)

Sym(id, len) == [id |-> id, len |-> len]
Look ==
  /\ phase = "look" /\ i < Len(text)
  /\ i' = i + 1
  /\ LET key == Key(i + 1)
         n == W(text[i + 1])
     IN IF HasTerm(mo.v, key)
        THEN w' = w \o pend \o <<Sym(IdOf(mo.v, key), n)>> /\ pend' = <<>>
        ELSE IF mo.unk = <<>> THEN UNCHANGED <<w, pend>>
        ELSE LET u == Sym(IdOf(mo.v, mo.unk), n) IN
             IF pend = <<>> THEN pend' = <<u>> /\ UNCHANGED w
             ELSE IF mo.fuse = 1 THEN pend' = <<[u EXCEPT !.len = @ + pend[1].len]>> /\ UNCHANGED w
             ELSE w' = w \o pend /\ pend' = <<u>>
  /\ UNCHANGED <<mo, text, phase>>

\* An event with the model, for the code, and the specification's result.
Out(op) == IF op = "drop"
           THEN \A d \in {0, 50, 100} : Emit("fn", <<[op |-> "drop", mo |-> mo, t |-> text, dp |-> d,
                                                      runs |-> IF d = 50 THEN 60 ELSE 2,
                                                      many |-> IF d = 50 THEN 1 ELSE 0, seed |-> 1]>>, [x |-> 0], [x |-> 0])
           ELSE Emit("fn", <<[op |-> op, mo |-> mo, t |-> text]>>, [x |-> 0], [r |-> BpeTokenize(mo, text)])
Flush ==
  /\ phase = "look" /\ i = Len(text)
  /\ w' = w \o pend /\ pend' = <<>> /\ phase' = "end"
  /\ UNCHANGED <<mo, text, i>>
  /\ ~DropsUnknown(mo, text) => Out(IF Prop = "C15" THEN "drop" ELSE IF Prop = "C14" /\ MaxDepth > 1 THEN "tile" ELSE "tok")

Next == Look \/ Flush
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
UnkMissing == mo.unk # <<>> /\ ~HasTerm(mo.v, mo.unk)
\* The pending symbol is the last stretch of unknown characters.
Agrees == (phase = "end" /\ ~UnkMissing) => w = InitialWord(mo, text)

\* C14
Tiling == (phase = "end" /\ ~UnkMissing /\ ~DropsUnknown(mo, text)) =>
  LET r == BpeTokenize(mo, text) IN r.err = "" /\ Tiles(r.ts, text)
FusionExact == (phase = "end" /\ ~UnkMissing /\ mo.unk # <<>>) =>
  LET u == IdOf(mo.v, mo.unk) IN
  IF mo.fuse = 1 THEN \A k \in 1..(Len(w) - 1) : ~(w[k].id = u /\ w[k + 1].id = u)
  ELSE Len(w) = Len(text)

\* C15: the deterministic result and the word without merges are among the
\* results of dropout, and all of them tile the word.
DropoutSound == (phase = "end" /\ ~UnkMissing /\ ~DropsUnknown(mo, text) /\ Prop = "C15" /\ text # <<>>) =>
  LET all == BpeDropoutResults(mo, text) IN
  /\ BpeTokenize(mo, text).ts \in all
  /\ TokensOf(mo, InitialWord(mo, text)) \in all
  /\ \A ts \in all : Tiles(ts, text)

\* The shares are those of all reachable words, once each, and make up the whole
\* (the unrounded remainders stay with the words merged into).
SharesSound == (phase = "end" /\ Prop = "C15") =>
  \A q \in 0..4 :
    LET s == Shares(<<<<w, AllCases>>>>, <<>>, mo.m, q) IN
    /\ {pr[1] : pr \in Rng(s)} = Reachable(w, mo.m)
    /\ FoldLeft(LAMBDA n, pr : n + pr[2], 0, s) = AllCases
    /\ q = 0 => \A k \in DOMAIN s : s[k][2] = (IF s[k][1] = MergeAll(w, mo.m) THEN AllCases ELSE 0)
    /\ q = 4 => \A k \in DOMAIN s : s[k][2] = (IF s[k][1] = w THEN AllCases ELSE 0)
=============================================================================
