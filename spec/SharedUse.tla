------------------------------ MODULE SharedUse ------------------------------
(* Shared use of components (C24): callers call instances of models,          *)
(* patterns, normalizers and pre-tokenizers, one after the other or at the    *)
(* same time.  An instance may remember results (the byte-pair model is made   *)
(* for a cache of words); whatever it remembers, forgets or is doing for       *)
(* another caller, every call ends with the result of a fresh instance.        *)
(*                                                                           *)
(* The initial states are programs: which caller calls which instance with    *)
(* which input.  Each is printed for the code to run, and the behaviours are   *)
(* all interleavings of its calls with lookups, stores and evictions.          *)
EXTENDS PreTokenized, MCText

VARIABLES cfgs,   \* the instances
          prog,   \* for each caller, the calls <<instance, input>> to come
          at,     \* for each caller: [s |-> stage, i, t, r]
          cache,  \* for each instance, what is remembered: set of <<input, result>>
          done    \* <<instance, input, result>> of the finished calls
vars == <<cfgs, prog, at, cache, done>>

a == 97
ja == 26085
x == 120
sp == 32

Numbered(ts) == [k \in 1..Len(ts) |-> <<ts[k], k - 1>>]
V1 == Numbered(<< <<a>>, <<ja>>, <<a, a>>, <<35, a>>, <<63>>, <<a, ja>> >>)
Bpe1(m, unk, pre, fuse) == [what |-> "model", mo |-> [k |-> "bpe", v |-> V1, m |-> m, unk |-> unk, fuse |-> fuse,
                                                     pre |-> pre, suf |-> <<>>, cap |-> 2]]
M1 == << <<0, 0, 0, 2>>, <<0, 1, 1, 5>> >>
Wp(unk, max) == [what |-> "model", mo |-> [k |-> "wp", v |-> V1, unk |-> unk, pre |-> <<35>>, max |-> max]]

Plain == Bpe1(M1, <<63>>, <<>>, 0)
Partners == << Plain,                              \* the same again
               Bpe1(<<>>, <<63>>, <<>>, 0),        \* other merges
               Bpe1(M1, <<63>>, <<35>>, 1),        \* other options
               Bpe1(M1, <<90>>, <<>>, 0),          \* fails: no such unknown token
               Wp(<<63>>, 100), Wp(<<90>>, 2) >>
Others == << [what |-> "pat", p |-> [k |-> "str", t |-> <<a>>]],
             [what |-> "pat", p |-> [k |-> "err", e |-> "E1"]],
             [what |-> "nz", z |-> [k |-> "strip", l |-> 1, r |-> 1]],
             [what |-> "nz", z |-> [k |-> "lower"]],
             [what |-> "pre", z |-> [k |-> "meta", c |-> 9601, pre |-> 1]],
             [what |-> "pre", z |-> [k |-> "bert"]] >>
Pairs == {<<Plain, Partners[k]>> : k \in DOMAIN Partners}
         \cup (IF MaxDepth < 4 THEN {<<Others[k], Others[k]>> : k \in DOMAIN Others} ELSE {})

Inputs == { <<a, a, ja>>, <<x, a>>, <<a>> }
Calls == {1, 2} \X Inputs
Seqs(n) == [1..n -> Calls]

\* One caller with MaxDepth calls, or two callers that share them.
Programs == {<<s>> : s \in Seqs(MaxDepth)}
            \cup {<<s, t>> : s \in Seqs((MaxDepth + 1) \div 2), t \in Seqs(MaxDepth \div 2)}

Fresh(cfg, in) ==
  CASE cfg.what = "model" -> ModelTokenize(cfg.mo, in)
    [] cfg.what = "pat"   -> IF PatError(cfg.p) # "" THEN [err |-> PatError(cfg.p), ts |-> <<>>]
                             ELSE [err |-> "", ts |-> FindMatches(cfg.p, in)]
    [] cfg.what = "nz"    -> LET q == Normalize(cfg.z, NSNew(in))
                             IN [err |-> q.err, ts |-> <<Norm(q.ns), Spans(q.ns)>>]
    [] cfg.what = "pre"   -> LET q == PreTokenize(cfg.z, <<Pending(NSNew(in))>>)
                             IN [err |-> q.err, ts |-> OriginalSplits(q.pcs)]

\* The program as a case for the code.
Starts(p) == FoldLeft(LAMBDA acc, j : acc \o FoldLeft(LAMBDA ac, w :
                          IF j <= Len(p[w]) THEN Append(ac, [op |-> "sstart", who |-> w, at |-> p[w][j][1], t |-> p[w][j][2]])
                          ELSE ac, <<>>, [w \in 1..Len(p) |-> w]),
                      <<>>, [j \in 1..Len(p[1]) |-> j])
EmitProgram(cs, p) == PrintT(ToJson([kind |-> "sh", cfgs |-> cs, conc |-> Len(p) - 1, ev |-> Starts(p)]))

Idle == [s |-> "idle", i |-> 0, t |-> <<>>, r |-> [err |-> "", ts |-> <<>>]]
Init == /\ cfgs \in Pairs
        /\ prog \in Programs
        /\ at = [w \in DOMAIN prog |-> Idle]
        /\ cache = <<{}, {}>>
        /\ done = {}
        /\ EmitProgram(cfgs, prog)

Begin(w) == /\ at[w].s = "idle" /\ prog[w] # <<>>
            /\ at' = [at EXCEPT ![w] = [Idle EXCEPT !.s = "look", !.i = prog[w][1][1], !.t = prog[w][1][2]]]
            /\ prog' = [prog EXCEPT ![w] = Tail(@)]
            /\ UNCHANGED <<cfgs, cache, done>>
Hit(w) == /\ at[w].s = "look"
          /\ \E e \in cache[at[w].i] : e[1] = at[w].t /\ at' = [at EXCEPT ![w].s = "end", ![w].r = e[2]]
          /\ UNCHANGED <<cfgs, prog, cache, done>>
\* Not found (or no cache).
Compute(w) == /\ at[w].s = "look"
              /\ LET r == Fresh(cfgs[at[w].i], at[w].t)
                 IN at' = [at EXCEPT ![w].s = IF r.err = "" THEN "store" ELSE "end", ![w].r = r]
              /\ UNCHANGED <<cfgs, prog, cache, done>>
\* The capacity is 1: what was there may have to go, or the new entry is not kept.
Store(w) == /\ at[w].s = "store"
            /\ cache' \in {cache, [cache EXCEPT ![at[w].i] = {<<at[w].t, at[w].r>>}]}
            /\ at' = [at EXCEPT ![w].s = "end"]
            /\ UNCHANGED <<cfgs, prog, done>>
\* The caller may do what it likes with its result.
End(w) == /\ at[w].s = "end"
          /\ done' = done \cup {<<at[w].i, at[w].t, at[w].r>>}
          /\ at' = [at EXCEPT ![w] = Idle]
          /\ UNCHANGED <<cfgs, prog, cache>>

Next == \E w \in DOMAIN at : Begin(w) \/ Hit(w) \/ Compute(w) \/ Store(w) \/ End(w)
Spec == Init /\ [][Next]_vars /\ \A w \in {1, 2} : WF_vars(w \in DOMAIN at /\ (Begin(w) \/ Hit(w) \/ Compute(w) \/ Store(w) \/ End(w)))

--------------------------------------------------------------------------------
\* C24
EndsFresh == \A d \in done : d[3] = Fresh(cfgs[d[1]], d[2])
CacheSound == \A i \in {1, 2} : \A e \in cache[i] : e[2] = Fresh(cfgs[i], e[1]) /\ e[2].err = ""
\* Whoever calls the same instance with the same input gets the same.
Functional == \A d \in done : \A e \in done : d[1] = e[1] /\ d[2] = e[2] => d[3] = e[3]
AllEnd == <>(\A w \in DOMAIN at : at[w].s = "idle" /\ prog[w] = <<>>)
=============================================================================
