---------------------------- MODULE PreTokenized ----------------------------
(* Pre-tokenized texts (package pretokenizedstring), the pre-tokenizers      *)
(* (package pretokenizers/...) and encodings (package encodings).            *)
(*                                                                           *)
(* State: [orig, pcs], pcs a sequence of pieces [ns, h, ts]: a text, whether *)
(* it has tokens, and the tokens <<id, text, start, end>>.                   *)
EXTENDS NormStrOps, Models

Pending(ns) == [ns |-> ns, h |-> 0, ts |-> <<>>]
PTFrom(ns) == [orig |-> ns.o, pcs |-> <<Pending(ns)>>]

--------------------------------------------------------------------------------
(* The three steps, for any callback.                                        *)
(* A split callback takes the index of a piece (from 0) and its text and     *)
(* gives [ns, items, err]: the text as the callback leaves it (it may edit it *)
(* in place), the pieces it returns, and its error.                          *)

\* acc: the new list, the old list with in-place edits, the calls, the error.
PTSplit(pcs, CB(_, _, _)) ==
  LET step(acc, i) ==
        IF acc.err # "" THEN [acc EXCEPT !.old = Append(@, pcs[i])]
        ELSE IF pcs[i].h = 1
        THEN [acc EXCEPT !.new = Append(@, pcs[i]), !.old = Append(@, pcs[i])]
        ELSE LET r == CB(Len(acc.calls) + 1, i - 1, pcs[i].ns)
             IN [new   |-> acc.new \o SelectSeq(r.items, LAMBDA p : p.ns.n # <<>>),
                 old   |-> Append(acc.old, [pcs[i] EXCEPT !.ns = r.ns]),
                 calls |-> Append(acc.calls, <<i - 1, Norm(pcs[i].ns)>>),
                 err   |-> r.err]
      r == FoldLeft(step, [new |-> <<>>, old |-> <<>>, calls |-> <<>>, err |-> ""],
                    [i \in 1..Len(pcs) |-> i])
  IN [pcs |-> IF r.err = "" THEN r.new ELSE r.old, calls |-> r.calls, err |-> r.err]

\* A normalization callback gives [ns, err].
PTNormalize(pcs, CB(_, _)) ==
  LET step(acc, i) ==
        IF acc.err # "" \/ pcs[i].h = 1 THEN [acc EXCEPT !.pcs = Append(@, pcs[i])]
        ELSE LET r == CB(Len(acc.calls) + 1, pcs[i].ns)
             IN [pcs   |-> Append(acc.pcs, [pcs[i] EXCEPT !.ns = r.ns]),
                 calls |-> Append(acc.calls, <<i - 1, Norm(pcs[i].ns)>>),
                 err   |-> r.err]
  IN FoldLeft(step, [pcs |-> <<>>, calls |-> <<>>, err |-> ""], [i \in 1..Len(pcs) |-> i])

\* A tokenization callback gives [ts, err].
PTTokenize(pcs, CB(_, _)) ==
  LET step(acc, i) ==
        IF acc.err # "" \/ pcs[i].h = 1 THEN [acc EXCEPT !.pcs = Append(@, pcs[i])]
        ELSE LET r == CB(Len(acc.calls) + 1, pcs[i].ns)
             IN [pcs   |-> Append(acc.pcs, IF r.err # "" THEN pcs[i]
                                           ELSE [pcs[i] EXCEPT !.h = 1, !.ts = r.ts]),
                 calls |-> Append(acc.calls, <<i - 1, Norm(pcs[i].ns)>>),
                 err   |-> r.err]
  IN FoldLeft(step, [pcs |-> <<>>, calls |-> <<>>, err |-> ""], [i \in 1..Len(pcs) |-> i])

--------------------------------------------------------------------------------
(* Pre-tokenizers *)

\* Split every pending piece by a pattern, after an in-place edit.
CutAll(pcs, Edit(_), p, beh) ==
  PTSplit(pcs, LAMBDA call, ix, ns :
    LET x == Edit(ns) IN
    IF FailsOn(p, Norm(x)) THEN [ns |-> x, err |-> "other", items |-> <<>>]
    ELSE [ns |-> x, err |-> "",
          items |-> LET q == SplitBy(x, p, beh) IN Eager([i \in 1..Len(q) |-> Pending(q[i])])])

Same(ns) == ns

\* The printable stand-in of each byte value.
PlainByte(b) == (33 <= b /\ b <= 126) \/ (161 <= b /\ b <= 172) \/ (174 <= b /\ b <= 255)
\* StandIn[b + 1]: the byte itself if printable, otherwise the next character
\* from U+0100 on.
StandIn == FoldLeft(LAMBDA acc, b :
  IF PlainByte(b) THEN [acc EXCEPT !.out = Append(@, b)]
  ELSE [free |-> acc.free + 1, out |-> Append(acc.out, acc.free)],
  [free |-> 256, out |-> <<>>], [i \in 1..256 |-> i - 1]).out
ByteExpand(ns) ==
  [ns EXCEPT !.n = FoldLeft(LAMBDA acc, x :
     acc \o [i \in 1..W(x.c) |-> [c |-> StandIn[Utf8(x.c)[i] + 1], a |-> x.a]], <<>>, @)]

SpacePrefix(ns) ==
  IF ns.n # <<>> /\ ~IsWhite(ns.n[1].c) THEN Prepend(ns, <<32>>) ELSE ns

\* Every space becomes the mark; a mark in front if there is none.
MetaMark(ns, c, prefix) ==
  LET r == ReplaceCaps(ns, FindMatches([k |-> "rune", c |-> 32], Norm(ns)), <<c>>)
  IN IF prefix /\ r.n # <<>> /\ r.n[1].c # c THEN Prepend(r, <<c>>) ELSE r

\* The pieces, and the error if an expression fails.
PreTokenize(z, pcs) ==
  CASE z.k = "wsplit" -> CutAll(pcs, Same, [k |-> "cls", name |-> "ws", neg |-> 0], "rm")
    [] z.k = "delim"  -> CutAll(pcs, Same, [k |-> "rune", c |-> z.c], "rm")
    [] z.k = "bert"   -> CutAll(CutAll(pcs, Same, [k |-> "cls", name |-> "ws", neg |-> 0], "rm").pcs,
                                Same, [k |-> "cls", name |-> "pu", neg |-> 0], "iso")
    [] z.k = "word"   -> CutAll(pcs, Same, [k |-> "inv", p |-> z.p], "rm")
    [] z.k = "bytes"  -> LET q == CutAll(pcs, LAMBDA ns : IF z.pre = 1 THEN SpacePrefix(ns) ELSE ns, z.p, "iso")
                         IN IF q.err # "" THEN q
                            ELSE PTNormalize(q.pcs, LAMBDA call, ns : [ns |-> ByteExpand(ns), err |-> ""])
    [] z.k = "meta"   -> CutAll(pcs, LAMBDA ns : MetaMark(ns, z.c, z.pre = 1),
                                [k |-> "rune", c |-> z.c], "next")

--------------------------------------------------------------------------------
(* Callbacks of the harness *)

FoldEdits(ns, edits) ==
  FoldLeft(LAMBDA acc, e : IF acc.err # "" THEN acc ELSE NSEdit(acc.ns, e),
           [ns |-> ns, err |-> ""], edits)

\* Token lists by rule; off: byte positions of the characters.
TokenRule(tk, ns) ==
  LET t == Norm(ns)
      n == Len(t)
      off == Offs(t)
      one(i, j) == <<i + 100 * j, SubSeq(t, i, j - 1), off[i], off[j]>>
  IN CASE tk.k = "chars" -> [err |-> "", ts |-> [i \in 1..n |-> one(i, i + 1)]]
       [] tk.k = "whole" -> [err |-> "", ts |-> <<one(1, n + 1)>>]
       [] tk.k = "none"  -> [err |-> "", ts |-> <<>>]
       [] tk.k = "odd"   -> [err |-> "", ts |-> [i \in 1..((n + 1) \div 2) |-> one(2 * i - 1, 2 * i)]]
       [] tk.k = "ends"  -> [err |-> "", ts |-> [i \in 1..n |-> one(i, n + 1)]]
       \* custom callbacks: reversed, from the start, single bytes, past the end
       [] tk.k = "back"  -> [err |-> "", ts |-> [i \in 1..n |-> one(n + 1 - i, n + 2 - i)]]
       [] tk.k = "heads" -> [err |-> "", ts |-> [i \in 1..n |-> one(1, i + 1)]]
       [] tk.k = "bytes" -> [err |-> "", ts |-> [b \in 1..off[n + 1] |->
                               LET i == CellAt(off, b - 1) IN <<b, <<t[i]>>, b - 1, b>>]]
       [] tk.k = "past"  -> [err |-> "", ts |-> [i \in 1..n |-> <<i, <<t[i]>>, off[i], off[n + 1] + i - 1>>]]
       [] tk.k = "model" -> ModelTokenize(tk.mo, t)

\* A split callback.
SplitCB(cb, call, ns) ==
  LET ed == FoldEdits(ns, cb.ed)
      x  == ed.ns
      q  == SplitBy(x, cb.p, cb.beh)
      mk(y, k) == IF cb.tk # 0 /\ k % 2 = 1
                  THEN [ns |-> y, h |-> 1, ts |-> TokenRule([k |-> IF cb.tk = 1 THEN "whole" ELSE "none"], y).ts]
                  ELSE Pending(y)
  IN IF cb.fail = call THEN [ns |-> ns, items |-> <<>>, err |-> "E1"]
     ELSE [ns |-> x, err |-> "",
           items |-> CASE cb.act = "pat"   -> [i \in 1..Len(q) |-> mk(q[i], i)]
                       [] cb.act = "parts" -> [i \in 1..Len(x.n) |-> mk(NSNew(<<x.n[i].c>>), i)]
                       [] cb.act = "same"  -> <<mk(x, 1)>>
                       [] cb.act = "none"  -> <<>>
                       [] cb.act = "empty" -> <<mk(NSNew(<<>>), 1), mk(x, 2), mk(NSNew(<<>>), 3)>>]

--------------------------------------------------------------------------------
(* Encodings *)

AllTokenized(pcs) == \A i \in DOMAIN pcs : pcs[i].h = 1

\* The encoding of tokens [id, tk, off, wd], of type 0.
EncodeTokens(toks) ==
  LET n == Len(toks) IN
  [err |-> "",
   ids |-> [k \in 1..n |-> toks[k].id], tks |-> [k \in 1..n |-> toks[k].tk],
   wds |-> [k \in 1..n |-> toks[k].wd], off |-> [k \in 1..n |-> toks[k].off],
   tys |-> [k \in 1..n |-> 0], sp |-> [k \in 1..n |-> 0], at |-> [k \in 1..n |-> 1],
   ov |-> 0]

Encode(pcs, wi, ti) ==
  IF ~AllTokenized(pcs)
  THEN [err |-> "not-tokenized", ids |-> <<>>, tys |-> <<>>, tks |-> <<>>, wds |-> <<>>,
        off |-> <<>>, sp |-> <<>>, at |-> <<>>, ov |-> 0]
  ELSE LET toks == FoldLeft(LAMBDA acc, i :
              LET ns   == pcs[i].ns
                  off  == Offs(Norm(ns))
                  ooff == Offs(ns.o)
              IN acc \o [k \in 1..Len(pcs[i].ts) |->
                   LET t == pcs[i].ts[k]
                       r == ToOriginalBy(ns, off, ooff, t[3], t[4])
                   IN [id |-> t[1], tk |-> t[2],
                       off |-> IF r.ok = 1 THEN <<ns.sh + r.s, ns.sh + r.e>> ELSE <<t[3], t[4]>>,
                       wd |-> IF wi < 0 THEN i - 1 ELSE wi]],
              <<>>, [i \in 1..Len(pcs) |-> i])
       IN [EncodeTokens(toks) EXCEPT !.tys = [k \in DOMAIN toks |-> ti]]

--------------------------------------------------------------------------------
(* Operations.  A result r holds the error tag and the callback's calls.      *)

PTApply(st, e) ==
  LET with(q) == [st |-> [st EXCEPT !.pcs = q.pcs], r |-> [err |-> q.err, calls |-> q.calls]]
  IN CASE e.op = "ptnew" -> LET ns == FoldEdits(NSNew(e.t), e.ed).ns
                            IN [st |-> PTFrom(ns), r |-> [err |-> "", calls |-> <<>>]]
       [] e.op = "ptsplit" -> with(PTSplit(st.pcs, LAMBDA call, ix, ns : SplitCB(e.cb, call, ns)))
       [] e.op = "ptnorm" ->
            with(PTNormalize(st.pcs, LAMBDA call, ns :
                   IF e.fail = call THEN [ns |-> ns, err |-> "E2"] ELSE FoldEdits(ns, e.ed)))
       [] e.op = "pttok" ->
            with(PTTokenize(st.pcs, LAMBDA call, ns :
                   IF e.fail = call THEN [ts |-> <<>>, err |-> "E3"] ELSE TokenRule(e.tk, ns)))
       [] e.op = "ptnz" ->
            with([PTNormalize(st.pcs, LAMBDA call, ns : Normalize(e.z, ns)) EXCEPT !.calls = <<>>])
       [] e.op = "ptpre" -> with([PreTokenize(e.z, st.pcs) EXCEPT !.calls = <<>>])
       [] e.op = "ptenc" -> [st |-> st, r |-> Encode(st.pcs, e.wi, e.ti)]

--------------------------------------------------------------------------------
(* Observation *)

PieceProj(p) == [ns |-> NSProj(p.ns), h |-> p.h, ts |-> p.ts]

OriginalSplits(pcs) ==
  [i \in 1..Len(pcs) |-> LET ns == pcs[i].ns
                         IN <<Norm(ns), ns.sh, ns.sh + ByteLen(ns.o), pcs[i].h>>]
NormalizedSplits(pcs) ==
  LET len == [i \in 1..Len(pcs) |-> ByteLen(Norm(pcs[i].ns))]
      at  == FoldLeft(LAMBDA acc, x : Append(acc, acc[Len(acc)] + x), <<0>>, len)
  IN [i \in 1..Len(pcs) |-> <<Norm(pcs[i].ns), at[i], at[i + 1], pcs[i].h>>]

SamePieces(pcs, obs) ==
  /\ Len(pcs) = Len(obs.p)
  /\ \A i \in DOMAIN pcs :
       /\ SameProj(pcs[i].ns, obs.p[i].ns)
       /\ pcs[i].h = obs.p[i].h /\ pcs[i].ts = obs.p[i].ts
SameSplits(pcs, obs) ==
  /\ obs.ob = OriginalSplits(pcs) /\ obs.nb = NormalizedSplits(pcs)

CanAdoptPieces(obs) == \A i \in DOMAIN obs.p : CanAdopt(obs.p[i].ns)
AdoptPieces(obs) == Eager([i \in 1..Len(obs.p) |->
                             [ns |-> Adopt(obs.p[i].ns), h |-> obs.p[i].h, ts |-> obs.p[i].ts]])

--------------------------------------------------------------------------------
(* Provenance (C11), on any list of pieces. *)
ProvenanceOK(orig, pcs) ==
  LET off == Offs(orig) IN
  /\ \A i \in DOMAIN pcs :
       LET ns == pcs[i].ns IN
       /\ ns.sh >= 0 /\ ns.sh + ByteLen(ns.o) <= off[Len(off)]
       /\ OnBoundary(off, ns.sh) /\ OnBoundary(off, ns.sh + ByteLen(ns.o))
       /\ LET c == Reached(off, ns.sh) IN ns.o = SubSeq(orig, c, c + Len(ns.o) - 1)
  /\ \A i \in 1..(Len(pcs) - 1) : pcs[i].ns.sh <= pcs[i + 1].ns.sh
  \* (text inserted in front of a piece and cut off again stems from no character)
  /\ LET some == SelectSeq(pcs, LAMBDA p : p.ns.o # <<>>)
     IN \A i \in 1..(Len(some) - 1) :
          some[i].ns.sh + ByteLen(some[i].ns.o) <= some[i + 1].ns.sh + ByteLen(some[i + 1].ns.o)
=============================================================================
