------------------------------- MODULE Conform -------------------------------
(* Trace checking: executions of the real code, recorded by the harness, are *)
(* checked against the specification.                                        *)
(*                                                                           *)
(* The trace file (ndjson) has one case per line: a kind and a sequence of    *)
(* events.  An event is an operation of the specification with its arguments  *)
(* and, in field obs, what the code showed after it.  Each event is one step:  *)
(* the specification's                                                        *)
(* operation is applied to the current abstract state, its result and new    *)
(* state are compared with what was observed where the operation concerns    *)
(* the property PROP, and the next step starts from the observed state (so   *)
(* that a deviation that does not concern PROP does not hide later ones).    *)
EXTENDS PreTokenized, TLC, IOUtils, Json

Prop == IOEnv.VERIF_PROP

\* The header: the class table of the characters in the trace and the number
\* of cases.  (A file of its own, as TLC evaluates every definition that does
\* not depend on variables, and the traces only once then.)
Header == ndJsonDeserialize(IOEnv.VERIF_HEADER)[1]
NCases == Header.n
\* (TLC caches ClassTable, but not the definition substituted for CT.)
ClassTable == FoldLeft(LAMBDA f, x : f @@ (x.c :> x), <<>>, Header.ct)
TraceCT == ClassTable

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
CaseOf(i) == Trace[i]

--------------------------------------------------------------------------------
(* Which operations concern which property. *)
NSFocus ==
  CASE Prop = "C02" -> {"filter", "map", "lower", "upper", "trim"}
    [] Prop = "C03" -> {"prepend", "append", "replace"}
    [] Prop = "C04" -> {"tr"}
    [] Prop = "C05" -> ReadOps \ {"oa"}
    [] Prop = "C06" -> {"oa"}
    [] Prop = "C07" -> {"slice"}
    [] Prop = "C08" -> {"split"}
    [] Prop \in {"C19", "C20"} -> {"nz"}
    [] OTHER -> {}

PTFocus(e) ==
  CASE Prop = "C10" -> e.op \in {"ptnew", "ptsplit", "ptnorm", "pttok"}
    [] Prop = "C11" -> TRUE
    [] Prop = "C12" -> e.op \in {"ptenc"}
    [] Prop = "C20" -> e.op \in {"ptnz"}
    [] Prop = "C21" -> e.op = "ptpre" /\ e.z.k = "bytes"
    [] Prop = "C22" -> e.op = "ptpre" /\ e.z.k \in {"wsplit", "delim", "bert", "word"}
    [] Prop = "C23" -> e.op = "ptpre" /\ e.z.k = "meta"
    [] OTHER -> FALSE

--------------------------------------------------------------------------------
(* Pools of texts.  obs: pan (a panic), r (result), n (size of the pool), ch:  *)
(* <<index, projection>> of the texts whose projection is new or changed.      *)

Changed(obs) == {obs.ch[i][1] : i \in DOMAIN obs.ch}
ProjOf(obs, i) == obs.ch[CHOOSE j \in DOMAIN obs.ch : obs.ch[j][1] = i][2]

\* Texts that the operation does not touch must not change.
Untouched(st, e, obs) ==
  \A i \in Changed(obs) : i > Len(st) \/ (e.op \in EditOps /\ i = e.x)

\* C01 on an observed projection.
AlignedOK(p) ==
  LET off == Offs(p.o)
      spans == {<<0, 0>>} \cup {<<off[k], off[k + 1]>> : k \in 1..Len(p.o)}
  IN /\ ValidText(p.o) /\ ValidText(p.n)
     /\ p.rag = 0
     /\ Len(p.al) = Len(p.n)
     /\ \A i \in DOMAIN p.al : p.al[i] \in spans
     /\ \A i \in 1..(Len(p.al) - 1) : p.al[i][1] <= p.al[i + 1][1] /\ p.al[i][2] <= p.al[i + 1][2]
     /\ p.len[2] = ByteLen(p.o)
     /\ p.len[1] = ByteLen(p.n)

NSInDomain(st, e) == e.op \in EditOps => NSDomain(st[e.x], e)

NSJudge(st, e) ==
  LET obs == e.obs IN
  IF ~NSInDomain(st, e) THEN TRUE
  ELSE IF Prop = "C01"
  THEN /\ obs.pan = 0
       /\ Untouched(st, e, obs)
       /\ \A i \in Changed(obs) : AlignedOK(ProjOf(obs, i))
       /\ \A i \in Changed(obs) : i <= Len(st) => ProjOf(obs, i).o = st[i].o
       /\ e.op = "new" => ProjOf(obs, obs.n) = NSProj(NSNew(e.t))
       /\ e.op # "new" => \A i \in Changed(obs) :
            i > Len(st) => IsSubText(ProjOf(obs, i).o, st[e.x].o)
  ELSE IF e.op \in NSFocus
  THEN /\ obs.pan = 0
       /\ LET q == NSApply(st, e) IN
          /\ q.r = obs.r
          /\ Len(q.objs) = obs.n
          /\ \A i \in 1..Len(q.objs) :
               IF i \in Changed(obs) THEN SameProj(q.objs[i], ProjOf(obs, i))
               ELSE i <= Len(st) /\ q.objs[i] = st[i]
       /\ (Prop = "C07") => Untouched(st, e, obs)
  ELSE IF Prop = "C07" /\ obs.pan = 0 THEN Untouched(st, e, obs)
  ELSE TRUE

\* What alignments show is what C05, C06 and C12 are about: there, the next
\* state is the specification's as long as the texts are right.
Predicting == Prop \in {"C05", "C06", "C12"}
SameText(ns, p) == ns.o = p.o /\ Norm(ns) = p.n

\* The next abstract state, from the observation; <<>> if there is none.
NSAdopted(st, e) ==
  IF /\ \A i \in Changed(e.obs) : CanAdopt(ProjOf(e.obs, i))
     /\ \A i \in 1..e.obs.n : i \in Changed(e.obs) \/ i <= Len(st)
  THEN [i \in 1..e.obs.n |-> IF i \in Changed(e.obs) THEN Adopt(ProjOf(e.obs, i)) ELSE st[i]]
  ELSE <<>>
NSNextState(st, e) ==
  IF e.obs.pan = 1 \/ ~NSInDomain(st, e) THEN <<>>
  ELSE IF ~Predicting THEN NSAdopted(st, e)
  ELSE IF e.op \in ReadOps THEN st
  ELSE LET q == NSApply(st, e).objs IN
       IF /\ Len(q) = e.obs.n
          /\ \A i \in DOMAIN q : IF i \in Changed(e.obs) THEN SameText(q[i], ProjOf(e.obs, i))
                                  ELSE i <= Len(st) /\ SameText(q[i], [o |-> st[i].o, n |-> Norm(st[i])])
       THEN q ELSE NSAdopted(st, e)

--------------------------------------------------------------------------------
(* Pre-tokenized texts.  obs: pan, r, p (pieces), ob, nb (the two listings).   *)
(* plain: only cutting pre-tokenizers so far.                                  *)

CutsOnly(e) == e.op = "ptenc" \/ e.op = "pttok" \/ (e.op = "ptnew" /\ e.ed = <<>>) \/
               (e.op = "ptpre" /\ e.z.k \in {"wsplit", "delim", "bert", "word"})

\* C10: the list of pieces as the callbacks' observed results prescribe it.
\* obs.cbs: for each call <<index, text, projection after it, items, error>>.
LogCB(cbs, call, ix) ==
  IF call > Len(cbs) THEN [ns |-> EmptySlice, items |-> <<>>, err |-> "missing call"]
  ELSE [ns |-> Adopt(cbs[call].ns),
        items |-> [i \in 1..Len(cbs[call].items) |->
                     [ns |-> Adopt(cbs[call].items[i].ns), h |-> cbs[call].items[i].h,
                      ts |-> cbs[call].items[i].ts]],
        err |-> cbs[call].err]
CanAdoptCbs(cbs) ==
  \A k \in DOMAIN cbs : /\ CanAdopt(cbs[k].ns)
                        /\ \A i \in DOMAIN cbs[k].items : CanAdopt(cbs[k].items[i].ns)

LifeJudge(st, e) ==
  LET obs == e.obs
      cbs == obs.cbs
      seen == [k \in 1..Len(cbs) |-> <<cbs[k].ix, cbs[k].t>>]
      same(q) == /\ q.err = obs.r.err
                 /\ q.calls = seen
                 /\ SamePieces(q.pcs, obs)
                 /\ SameSplits(AdoptPieces(obs), obs)
  IN IF ~CanAdoptCbs(cbs) \/ ~CanAdoptPieces(obs) THEN TRUE
     ELSE CASE e.op = "ptnew" -> Len(obs.p) = 1 /\ obs.p[1].h = 0 /\ SameSplits(AdoptPieces(obs), obs)
            [] e.op = "ptsplit" -> same(PTSplit(st.pcs, LAMBDA call, ix, ns : LogCB(cbs, call, ix)))
            [] e.op = "ptnorm"  -> same(PTNormalize(st.pcs, LAMBDA call, ns : LogCB(cbs, call, 0)))
            [] e.op = "pttok"   ->
                 same(PTTokenize(st.pcs, LAMBDA call, ns :
                        IF call > Len(cbs) THEN [ts |-> <<>>, err |-> "missing call"]
                        ELSE [ts |-> cbs[call].ts, err |-> cbs[call].err]))

PTJudge(st, e) ==
  LET obs == e.obs IN
  IF ~PTFocus(e) THEN TRUE
  ELSE IF Prop = "C11"
  THEN \* a panic or an inadmissible alignment is for other properties
       (obs.pan = 0 /\ CanAdoptPieces(obs)) =>
       LET pcs == AdoptPieces(obs)
           orig == IF e.op = "ptnew" THEN e.t ELSE st.orig
           q == PTApply(st, e)
       IN /\ ProvenanceOK(orig, pcs)
          /\ SameSplits(pcs, obs)
          /\ (IF e.op = "ptnew" THEN e.ed = <<>> ELSE st.plain /\ CutsOnly(e)) =>
               \A i \in DOMAIN pcs : Norm(pcs[i].ns) = pcs[i].ns.o
          /\ LET exp == q.st.pcs IN
             (Len(exp) = Len(pcs) /\ \A i \in DOMAIN exp : Norm(exp[i].ns) = Norm(pcs[i].ns)) =>
             \A i \in DOMAIN exp : exp[i].ns.sh = -1 \/ (exp[i].ns.sh = pcs[i].ns.sh /\ exp[i].ns.o = pcs[i].ns.o)
  ELSE /\ obs.pan = 0
       /\ IF Prop = "C10" THEN LifeJudge(st, e)
          ELSE LET q == PTApply(st, e) IN
               /\ obs.r = q.r
               /\ SamePieces(q.st.pcs, obs)
               /\ SameSplits(AdoptPieces(obs), obs)

PTAdopted(st, e) ==
  IF CanAdoptPieces(e.obs)
  THEN [orig |-> IF e.op = "ptnew" THEN e.t ELSE st.orig,
        pcs |-> AdoptPieces(e.obs),
        plain |-> (e.op = "ptnew" \/ st.plain) /\ CutsOnly(e)]
  ELSE <<>>
PTNextState(st, e) ==
  IF e.obs.pan = 1 THEN <<>>
  ELSE IF ~Predicting THEN PTAdopted(st, e)
  ELSE IF e.op = "ptenc" THEN st
  ELSE LET q == PTApply(st, e).st.pcs
           p == e.obs.p
       IN IF /\ Len(q) = Len(p)
             /\ \A i \in DOMAIN q : /\ SameText(q[i].ns, p[i].ns) /\ q[i].h = p[i].h /\ q[i].ts = p[i].ts
                                     /\ q[i].ns.sh \in {-1, p[i].ns.sh}
          THEN [orig |-> IF e.op = "ptnew" THEN e.t ELSE st.orig, plain |-> FALSE,
                pcs |-> [i \in DOMAIN q |-> [q[i] EXCEPT !.ns.sh = p[i].ns.sh]]]
          ELSE PTAdopted(st, e)

--------------------------------------------------------------------------------
(* Stateless operations. *)

FnJudge(e) ==
  LET obs == e.obs IN
  /\ obs.pan = 0
  /\ CASE e.op = "fm" ->
            IF PatError(e.p) # "" THEN obs.r.err = PatError(e.p) /\ obs.r.caps = <<>>
            ELSE obs.r.err = "" /\ obs.r.caps = FindMatches(e.p, e.t) /\ Covers(obs.r.caps, e.t)
       [] e.op = "cv"  -> obs.r.a = ToCharOffsets(e.t, e.s, e.e)
       [] e.op = "isb" -> (obs.r.b = 1) = IsBoundary(e.t, e.i)
       [] e.op = "cvr" -> obs.r.a = <<RunsChars(e.t, e.s), RunsChars(e.t, e.e)>>
       [] e.op = "isbr" -> (obs.r.b = 1) = RunsBoundary(e.t, e.i)
       [] e.op = "tok" -> obs.r = ModelTokenize(e.mo, e.t)
       [] e.op = "tile" -> \* C14: the tiling, without the merges
            LET w == InitialWord(e.mo, e.t) IN
            IF e.t # <<>> /\ e.mo.unk # <<>> /\ ~HasTerm(e.mo.v, e.mo.unk) THEN obs.r = [err |-> UnkError, ts |-> <<>>]
            ELSE IF obs.r.err # "" THEN obs.r = [err |-> "other", ts |-> <<>>] /\ Applicable(w, e.mo.m) # {}
                                        /\ \E i \in DOMAIN e.mo.m : ~HasId(e.mo.v, e.mo.m[i][4])
            ELSE /\ Tiles(obs.r.ts, e.t)
                 /\ \A i \in DOMAIN obs.r.ts : /\ HasId(e.mo.v, obs.r.ts[i][1])
                                               /\ TermOf(e.mo.v, obs.r.ts[i][1]) = obs.r.ts[i][2]
                 /\ Applicable(w, e.mo.m) = {} => obs.r.ts = (IF e.t = <<>> THEN <<>> ELSE TokensOf(e.mo, w))
       [] e.op = "drop" ->
            IF e.t # <<>> /\ e.mo.unk # <<>> /\ ~HasTerm(e.mo.v, e.mo.unk) THEN obs.r.err = UnkError
            ELSE
            /\ obs.r.err = ""
            /\ \A i \in DOMAIN obs.r.outs : Tiles(obs.r.outs[i], e.t)
            /\ CASE e.dp = 0   -> obs.r.outs = <<BpeTokenize(e.mo, e.t).ts>>
                 [] e.dp = 100 -> obs.r.outs = <<TokensOf(e.mo, InitialWord(e.mo, e.t))>>
                 [] OTHER -> /\ Rng(obs.r.outs) \subseteq BpeDropoutResults(e.mo, e.t)
                             /\ (e.many = 1 /\ Applicable(InitialWord(e.mo, e.t), e.mo.m) # {})
                                   => Len(obs.r.outs) >= 2
       [] e.op = "odds" ->
            obs.r.err = "" /\ DropoutShares(e.mo, e.t, e.q, obs.r.outs)
       [] e.op = "mall" ->
            obs.r.w = MergeAll([i \in 1..Len(e.w) |-> [id |-> e.w[i][1], len |-> e.w[i][2]]], e.m)
       [] e.op = "enctok" ->
            obs.r = [EncodeTokens(e.toks) EXCEPT !.tys = [k \in DOMAIN e.toks |-> e.toks[k].ty]]
       [] e.op = "encnew" -> obs.r = [e.f EXCEPT !.err = ""]
       [] e.op = "mload" ->
            IF e.bad = 1 THEN obs.r.err = 1
            ELSE LET q == LoadMerges(e.v, e.k, e.t)
                 IN IF q.err # 0 THEN obs.r.err = 1 /\ q.err \in Rng(obs.r.nums)
                    ELSE obs.r.err = 0 /\ Rng(obs.r.m) = Rng(q.m)

FnFocus(e) ==
  CASE Prop = "C09" -> e.op = "fm"
    [] Prop = "C12" -> e.op \in {"enctok", "encnew"}
    [] Prop = "C13" -> e.op \in {"tok", "mall"}
    [] Prop = "C14" -> e.op \in {"tok", "tile"}
    [] Prop = "C15" -> e.op \in {"drop", "odds"}
    [] Prop = "C16" -> e.op = "tok"
    [] Prop = "C18" -> e.op = "mload"
    [] Prop = "C25" -> e.op \in {"cv", "isb", "cvr", "isbr"}
    [] OTHER -> FALSE

--------------------------------------------------------------------------------
(* Vocabularies: st is the vocabulary, or <<>> before the first event.  obs.r:  *)
(* size, ids <<term, id>> of the probed terms (NoId if absent), terms           *)
(* <<id, found, term>> of the probed ids, err.                                  *)

\* Lookups change nothing; quiet events are not followed by probes (new ids
\* are then the ones the specification names).
IsVocLookup(e) == e.op \in {"vid", "vstr", "vsize"}
IsQuiet(e) == "q" \in DOMAIN e /\ e.q = 1

VocAfter(st, e, Given(_)) ==
  CASE IsVocLookup(e)  -> st
    [] e.op = "vload"  -> IF e.bad = 1 THEN <<>> ELSE e.v
    [] e.op = "vnew"   -> <<>>
    [] e.op = "vadd"   -> IF HasTerm(st, e.t) THEN st
                          ELSE Append(st, <<e.t, IF ~HasId(st, Len(st)) THEN Len(st) ELSE Given(e.t)>>)

\* The vocabulary the probes show.
VocSeen(r) == LET known == SelectSeq(r.ids, LAMBDA x : x[2] # NoId) IN known

VocNext(st, e) == IF IsVocLookup(e) \/ IsQuiet(e) THEN VocAfter(st, e, LAMBDA t : NextId(st))
                  ELSE VocSeen(e.obs.r)

VocLookup(st, e) ==
  LET r == e.obs.r IN
  CASE e.op = "vid"   -> r.id = IdOf(st, e.t)
    [] e.op = "vstr"  -> IF HasId(st, e.i) THEN r.ok = 1 /\ r.t = TermOf(st, e.i) ELSE r.ok = 0
    [] e.op = "vsize" -> r.size = Len(st)

VocJudge(st, e) ==
  LET obs == e.obs
      r == obs.r
      v == VocAfter(st, e, LAMBDA t : IdOf(r.ids, t))
  IN /\ obs.pan = 0
     /\ IF IsVocLookup(e) THEN VocLookup(st, e)
        ELSE IF IsQuiet(e) THEN r.err = 0
        ELSE IF e.op = "vload" /\ e.bad = 1 THEN r.err = 1
        ELSE /\ r.err = 0
             /\ IsBijection(v) /\ ~HasId(v, NoId)
             /\ r.size = Len(v)
             /\ Rng(VocSeen(r)) = Rng(v)
             /\ LET V      == Rng(v)
                    ids    == {v[i][2] : i \in DOMAIN v}
                    probed == {r.terms[j][1] : j \in DOMAIN r.terms}
                IN /\ \A j \in DOMAIN r.terms :
                        IF r.terms[j][2] = 1 THEN <<r.terms[j][3], r.terms[j][1]>> \in V
                        ELSE r.terms[j][1] \notin ids
                   /\ ids \subseteq probed

--------------------------------------------------------------------------------
(* Shared use (C24): see SharedUse.tla.  st is the set of pending calls        *)
(* <<caller, instance, input>>; every call ends with the result of a fresh      *)
(* instance.                                                                    *)

FreshResult(cfg, in) ==
  CASE cfg.what = "model" -> ModelTokenize(cfg.mo, in)
    [] cfg.what = "pat"   -> IF PatError(cfg.p) # "" THEN [err |-> PatError(cfg.p), ts |-> <<>>]
                             ELSE IF FailsOn(cfg.p, in) THEN [err |-> "other", ts |-> <<>>]
                             ELSE [err |-> "", ts |-> FindMatches(cfg.p, in)]
    [] cfg.what = "nz"    -> LET q == Normalize(cfg.z, NSNew(in))
                             IN [err |-> q.err, ts |-> <<Norm(q.ns), Spans(q.ns)>>]
    [] cfg.what = "pre"   -> LET q == PreTokenize(cfg.z, <<Pending(NSNew(in))>>)
                             IN [err |-> q.err, ts |-> OriginalSplits(q.pcs)]

\* With dropout, any of several results.
IsFresh(cfg, in, r) ==
  IF "dp" \in DOMAIN cfg /\ in # <<>> /\ (cfg.mo.unk = <<>> \/ HasTerm(cfg.mo.v, cfg.mo.unk))
  THEN r.err = "" /\ r.ts \in BpeDropoutResults(cfg.mo, in)
  ELSE r = FreshResult(cfg, in)

ShJudge(st, e, cs) ==
  CASE e.op = "sstart" -> ~\E x \in st : x[1] = e.who
    [] e.op = "swarm"  -> TRUE    \* many calls whose results are not recorded
    [] e.op = "send"   -> /\ \E x \in st : x[1] = e.who
                          /\ LET x == CHOOSE x \in st : x[1] = e.who
                             IN e.obs.pan = 0 /\ IsFresh(cs.cfgs[x[2]], x[3], e.obs.r)
ShNext(st, e) ==
  CASE e.op = "sstart" -> st \cup {<<e.who, e.at, e.t>>}
    [] e.op = "swarm"  -> st
    [] e.op = "send"   -> {x \in st : x[1] # e.who}

--------------------------------------------------------------------------------
(* The checker. *)

VARIABLES c,    \* case
          k,    \* events consumed
          st,   \* abstract state
          ok    \* whether the last event was as the specification says

InitState(kind) == CASE kind = "ns" -> <<>> [] kind = "pt" -> [orig |-> <<>>, pcs |-> <<>>, plain |-> TRUE]
                     [] kind = "voc" -> <<>> [] kind = "sh" -> {} [] OTHER -> 0

TInit == /\ c \in 1..NCases
         /\ k = 0
         /\ st = InitState(CaseOf(c).kind)
         /\ ok = TRUE

Judge(kind, e) ==
  CASE kind = "ns"  -> NSJudge(st, e)
    [] kind = "pt"  -> PTJudge(st, e)
    [] kind = "voc" -> VocJudge(st, e)
    [] kind = "sh"  -> ShJudge(st, e, CaseOf(c))
    [] kind = "fn"  -> FnFocus(e) => FnJudge(e)

\* <<>> if the case cannot go on, otherwise <<next state>>.
Option(next) == IF next = <<>> THEN <<>> ELSE <<next>>
NextState(kind, e) ==
  CASE kind = "ns"  -> Option(NSNextState(st, e))
    [] kind = "pt"  -> Option(PTNextState(st, e))
    [] kind = "voc" -> IF e.obs.pan = 0 THEN <<VocNext(st, e)>> ELSE <<>>
    [] kind = "sh"  -> <<ShNext(st, e)>>
    [] OTHER -> <<st>>

TNext == LET cs == CaseOf(c) IN
         /\ k < Len(cs.ev)
         /\ ok
         /\ LET e == cs.ev[k + 1] IN
            /\ ok' = Judge(cs.kind, e)
            /\ IF ~ok' THEN k' = k + 1 /\ st' = st
               ELSE LET next == NextState(cs.kind, e) IN
                    IF next = <<>> THEN k' = Len(cs.ev) /\ st' = st
                    ELSE k' = k + 1 /\ st' = next[1]
         /\ UNCHANGED c

TSpec == TInit /\ [][TNext]_<<c, k, st, ok>>

\* Every recorded event is a step the specification allows.
Conforms == ok \/ (PrintT(<<"NONCONFORMING", c, k>>) /\ FALSE)
=============================================================================
