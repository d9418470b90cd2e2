------------------------------- MODULE MCPreTok -------------------------------
(* Every short chain of steps on a pre-tokenized text: splits, edits and      *)
(* tokenizations by callbacks (failing ones included), pre-tokenizers and     *)
(* encodings (C10, C11, C12, C20 to C23).                                    *)
EXTENDS PreTokenized, MCText

VARIABLES pt,     \* the pre-tokenized text
          plain,  \* only cutting steps so far
          hist, done
vars == <<pt, plain, hist, done>>
View == <<pt, plain, IF done THEN hist ELSE <<Len(hist)>>>>

a == 97
ee == 233
ja == 26085
sp == 32
qu == 39
ss == 115
mk == 9601   \* the meta-space mark
dot == 46
us == 95

Alphabet == CASE Prop \in {"C10", "C12"} -> {a, ee}
              [] Prop = "C11" -> {a, ee, sp}
              [] Prop = "C20" -> {65, sp, 304}
              [] Prop = "C21" -> {a, sp, qu, ss, 48, dot, ee, 10}
              [] Prop = "C22" -> {a, ee, sp, dot, us, 8490, 35, 160}
              [] Prop = "C23" -> {a, ee, sp, mk, 160}
Starts == TextsUpTo(Alphabet, MaxLen)

Rune(c) == [k |-> "rune", c |-> c]
Rx(q, neg, set) == [k |-> "rx", eng |-> "re2", q |-> q, neg |-> neg, set |-> set]
CB(act, p, beh, ed, tk, fail) ==
  [act |-> act, p |-> p, beh |-> beh, ed |-> ed, tk |-> tk, fail |-> fail]
Up == [op |-> "upper"]
DropA == [op |-> "filter", p |-> [k |-> "fn", neg |-> 1, set |-> <<a>>]]
PutJa == [op |-> "prepend", t |-> <<ja>>]
EeToAA == [op |-> "replace", p |-> Rune(ee), t |-> <<a, a>>]

PtSplit(cb) == [op |-> "ptsplit", cb |-> cb]
PtPre(z) == [op |-> "ptpre", z |-> z]
PtTok(tk, fail) == [op |-> "pttok", tk |-> tk, fail |-> fail]
PtNorm(ed, fail) == [op |-> "ptnorm", ed |-> ed, fail |-> fail]

WSplit == [k |-> "wsplit"]
BertPre == [k |-> "bert"]
Delims == {[k |-> "delim", c |-> c] : c \in {a, ee, sp}}
Word == [k |-> "word", p |-> [k |-> "wd"], def |-> 1]
WordRx == [k |-> "word", p |-> Rx("+", 0, <<a, ee>>), def |-> 0]
BytesOf(p, pre, def) == [k |-> "bytes", p |-> p, pre |-> pre, trim |-> 0, def |-> def]
BytesZ == {BytesOf([k |-> "bl"], 1, 1), BytesOf(Rx("+", 0, <<a, sp>>), 0, 0), BytesOf(Rx("+", 0, <<a, sp>>), 1, 0),
           BytesOf(Rx("*", 1, <<ee>>), 1, 0)}
MetaZ == {[k |-> "meta", c |-> mk, pre |-> 1, def |-> 1], [k |-> "meta", c |-> mk, pre |-> 0, def |-> 0],
          [k |-> "meta", c |-> us, pre |-> 1, def |-> 0], [k |-> "meta", c |-> ee, pre |-> 1, def |-> 0],
          [k |-> "meta", c |-> sp, pre |-> 1, def |-> 0]}

--------------------------------------------------------------------------------
(* Setup *)
Setup ==
  CASE Prop \in {"C10", "C12", "C20"} ->
         { PtSplit(CB("pat", Rune(a), b, <<>>, tk, 0)) : b \in {"iso", "next"}, tk \in {0, 1} }
         \cup { PtNorm(<<EeToAA>>, 0), PtNorm(<<PutJa>>, 0), PtTok([k |-> "chars"], 0), PtTok([k |-> "chars"], 2),
                PtTok([k |-> "none"], 0) }
    [] OTHER ->
         { PtSplit(CB("pat", Rune(a), "next", <<>>, 1, 0)), PtSplit(CB("pat", Rune(ee), "rm", <<>>, 0, 0)),
           PtNorm(<<EeToAA>>, 0), PtNorm(<<[op |-> "append", t |-> <<sp, a>>]>>, 0), PtNorm(<<DropA>>, 0) }

--------------------------------------------------------------------------------
(* Focus *)

Fails == 0..3

AnyStep ==
  { PtSplit(CB("pat", p, b, ed, tk, f)) : p \in {Rune(a), Rx("*", 0, <<ee>>)}, b \in {"rm", "iso", "next"},
      ed \in {<<>>, <<Up>>, <<DropA>>}, tk \in 0..2, f \in Fails }
  \cup { PtSplit(CB(act, Rune(a), "rm", ed, tk, f)) : act \in {"parts", "same", "none", "empty"},
           ed \in {<<>>, <<DropA>>}, tk \in 0..2, f \in Fails }
  \cup { PtNorm(ed, f) : ed \in {<<Up>>, <<DropA>>, <<PutJa>>, <<EeToAA, Up>>}, f \in Fails }
  \cup { PtTok([k |-> t], f) : t \in {"chars", "whole", "none", "odd", "ends"}, f \in Fails }

NzZ == { [k |-> "lower"], [k |-> "strip", l |-> 1, r |-> 0], [k |-> "strip", l |-> 0, r |-> 1],
         [k |-> "strip", l |-> 1, r |-> 1], [k |-> "fail", e |-> "E1"], [k |-> "mark", t |-> <<ee>>],
         [k |-> "mapz", m |-> <<<<ee, 65>>>>], [k |-> "markfail", t |-> <<sp>>, e |-> "E2"] }
SeqZ == { [k |-> "seq", zs |-> <<>>] } \cup { [k |-> "seq", zs |-> <<y, z>>] : y \in NzZ, z \in NzZ }
        \cup { [k |-> "seq", zs |-> <<[k |-> "seq", zs |-> <<y, z>>], [k |-> "lower"]>>] : y \in NzZ, z \in NzZ }

ModelB == [k |-> "bpe", v |-> << <<<<a>>, 0>>, <<<<ee>>, 1>>, <<<<a, a>>, 2>>, <<<<ja>>, 3>> >>,
           m |-> << <<0, 0, 0, 2>> >>, unk |-> <<>>, fuse |-> 0, pre |-> <<>>, suf |-> <<>>]
ModelW == [k |-> "wp", v |-> << <<<<a>>, 4>>, <<<<us, a>>, 2>>, <<<<63>>, 7>> >>, unk |-> <<63>>, pre |-> <<us>>, max |-> 3]

Focus ==
  CASE Prop = "C10" -> AnyStep
    [] Prop = "C11" -> { PtPre(z) : z \in {WSplit, BertPre, Word, WordRx} \cup Delims \cup BytesZ \cup MetaZ }
                       \cup { PtSplit(CB("pat", p, b, ed, 0, 0)) : p \in {Rune(a), Rx("*", 0, <<ee>>)},
                              b \in Behaviours, ed \in {<<>>, <<DropA>>, <<PutJa>>, <<EeToAA>>} }
                       \cup { PtNorm(ed, 0) : ed \in {<<Up>>, <<DropA>>, <<PutJa>>} }
    [] Prop = "C12" -> { [op |-> "ptenc", wi |-> w, ti |-> t] : w \in {-1, 0, 5}, t \in {0, 1} }
    [] Prop = "C20" -> { [op |-> "ptnz", z |-> z] : z \in NzZ \cup SeqZ }
    [] Prop = "C21" -> { PtPre(z) : z \in BytesZ }
    [] Prop = "C22" -> { PtPre(z) : z \in {WSplit, BertPre, Word, WordRx} \cup Delims }
    [] Prop = "C23" -> { PtPre(z) : z \in MetaZ }

\* Encodings are taken of fully tokenized texts, too.
Finish == IF Prop = "C12"
          THEN { PtTok([k |-> t], 0) : t \in {"chars", "whole", "odd", "ends", "none", "back", "heads", "bytes", "past"} }
               \cup { PtTok([k |-> "model", mo |-> m], 0) : m \in {ModelB, ModelW} }
          ELSE {}

--------------------------------------------------------------------------------
Listing(s) == [p |-> Eager([i \in 1..Len(s.pcs) |-> PieceProj(s.pcs[i])]),
               ob |-> OriginalSplits(s.pcs), nb |-> NormalizedSplits(s.pcs)]
Shown(q) == [r |-> q.r] @@ Listing(q.st)

CutsOnlyEv(e) == e.op \in {"ptenc", "pttok"} \/ (e.op = "ptpre" /\ e.z.k \in {"wsplit", "delim", "bert", "word"})

Step(e, last) ==
  LET q == PTApply(pt, e) IN
  /\ pt' = q.st
  /\ done' = last
  /\ plain' = (plain /\ CutsOnlyEv(e))
  /\ hist' = Append(hist, e)
  /\ last => Emit("pt", Append(hist, e), Listing(pt), Shown(q))

NewEdits == IF Prop \in {"C11", "C12"} THEN { <<>>, <<PutJa>>, <<DropA>>, <<EeToAA>> } ELSE { <<>> }

Init == \E t \in Starts, ed \in NewEdits :
          LET e == [op |-> "ptnew", t |-> t, ed |-> ed] IN
          /\ pt = PTApply([orig |-> <<>>, pcs |-> <<>>], e).st
          /\ hist = <<e>> /\ done = FALSE /\ plain = (ed = <<>>)

Next == /\ ~done
        /\ \/ Len(hist) < MaxDepth /\ \E e \in Setup : Step(e, FALSE)
           \/ Len(hist) <= MaxDepth /\ \E e \in Finish : Step(e, FALSE)
           \/ \E e \in Focus : Step(e, TRUE)

Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
(* What the specification guarantees. *)

LastEv == hist[Len(hist)]
\* "parts" makes pieces that are not cut from the text: outside C11.
Cutting == \A i \in DOMAIN hist : hist[i].op = "ptsplit" => hist[i].cb.act # "parts"

\* C11
Provenance == Cutting => ProvenanceOK(pt.orig, pt.pcs)
NormalizedTile ==
  LET nb == NormalizedSplits(pt.pcs) IN
  /\ nb # <<>> => nb[1][2] = 0
  /\ \A i \in 1..(Len(nb) - 1) : nb[i][3] = nb[i + 1][2]
PlainPieces == plain => \A i \in DOMAIN pt.pcs : Norm(pt.pcs[i].ns) = pt.pcs[i].ns.o

\* C10: pieces with tokens stay as they are, in order; a failed split changes
\* only texts of pending pieces.
TokenizedKept ==
  [][LET kept == SelectSeq(pt.pcs, LAMBDA p : p.h = 1)
         find(acc, p) == IF acc <= Len(kept) /\ kept[acc] = p THEN acc + 1 ELSE acc
     IN FoldLeft(find, 1, pt'.pcs) = Len(kept) + 1]_vars

Joined(pcs) == FoldLeft(LAMBDA s, p : s \o Norm(p.ns), <<>>, pcs)

\* C21, on a text that is one pending piece: decoding gives the text back.
UnStandIn(c) == (CHOOSE b \in 0..255 : StandIn[b + 1] = c)
StandInsDiffer == Cardinality(Rng(StandIn)) = 256
Decodes(t) == Eager([i \in 1..Len(t) |-> UnStandIn(t[i])])
Lossless == (done /\ Prop = "C21" /\ Len(hist) = 2) =>
  LET t == hist[1].t
      z == LastEv.z
      full == IF z.pre = 1 /\ t # <<>> /\ ~IsWhite(t[1]) THEN <<sp>> \o t ELSE t
  IN Decodes(Joined(pt.pcs)) = Bytes(full)

\* C22, on a text that is one pending piece: a piece is a maximal stretch.
GoodFor(z, c) == CASE z.k \in {"wsplit", "bert"} -> ~IsWhite(c)
                   [] z.k = "delim" -> c # z.c
                   [] z.k = "word" /\ z.def = 1 -> ~IsReSpace(c)
                   [] OTHER -> c \in {a, ee}
Kept(z, t) == SelectSeq(t, LAMBDA c : GoodFor(z, c))
Joins(z, c, d) ==   \* characters next to each other which belong together
  /\ GoodFor(z, c) /\ GoodFor(z, d)
  /\ z.k = "bert" => ~IsPunct(c) /\ ~IsPunct(d)
  /\ (z.k = "word" /\ z.def = 1) => (IsReWord(c) <=> IsReWord(d))
Maximal == (done /\ Prop = "C22" /\ Len(hist) = 2) =>
  LET t == hist[1].t
      z == LastEv.z
      ob == OriginalSplits(pt.pcs)
      off == Offs(t)
      cuts == UNION {{ob[i][2], ob[i][3]} : i \in DOMAIN ob}
  IN /\ Joined(pt.pcs) = Kept(z, t)
     /\ \A i \in DOMAIN ob : ob[i][1] # <<>>
     /\ \A i \in 2..Len(t) : (off[i] \in cuts) <=>
          (GoodFor(z, t[i - 1]) \/ GoodFor(z, t[i])) /\ ~Joins(z, t[i - 1], t[i])

\* C23, on a text that is one pending piece.
Marked == (done /\ Prop = "C23" /\ Len(hist) = 2) =>
  LET t == hist[1].t
      z == LastEv.z
      m == [i \in 1..Len(t) |-> IF t[i] = sp THEN z.c ELSE t[i]]
      full == IF z.pre = 1 /\ t # <<>> /\ m[1] # z.c THEN <<z.c>> \o m ELSE m
      ob == OriginalSplits(pt.pcs)
  IN /\ Joined(pt.pcs) = full
     /\ \A i \in DOMAIN ob : \A j \in 2..Len(ob[i][1]) : ob[i][1][j] # z.c
     /\ \A i \in 2..Len(ob) : ob[i][1][1] = z.c
     \* the original offsets tile the text
     /\ t # <<>> => ob[1][2] = 0 /\ ob[Len(ob)][3] = ByteLen(t)
     /\ \A i \in 1..(Len(ob) - 1) : ob[i][3] = ob[i + 1][2]

\* C12: lengths agree, and the offsets of tokens inside their pieces lie inside
\* the text.
Encodable == (done /\ Prop = "C12") =>
  LET r == Encode(pt.pcs, LastEv.wi, LastEv.ti)
      n == FoldLeft(LAMBDA k, p : k + Len(p.ts), 0, pt.pcs)
  IN IF AllTokenized(pt.pcs)
     THEN /\ Len(r.ids) = n /\ Len(r.off) = n /\ Len(r.wds) = n
          /\ (\A i \in DOMAIN pt.pcs : \A j \in DOMAIN pt.pcs[i].ts : pt.pcs[i].ts[j][4] <= ByteLen(Norm(pt.pcs[i].ns))) =>
             \A k \in 1..n : 0 <= r.off[k][1] /\ r.off[k][1] <= r.off[k][2] /\ r.off[k][2] <= ByteLen(pt.orig)
     ELSE r.err # ""
=============================================================================
