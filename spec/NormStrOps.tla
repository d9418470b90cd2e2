----------------------------- MODULE NormStrOps -----------------------------
(* The operations of the public interface on a pool of live texts.  An event *)
(* is a record with the operation's name in field op, the text it is applied *)
(* to in field x (an index into the pool) and the arguments; it yields a new *)
(* pool and a result.  Both the state machine (MCNormStr) and the trace      *)
(* checker use NSApply: there is one semantics.                              *)
EXTENDS Normalizers

R0 == [ok |-> 1]

\* One edit in place.  Returns [ns, err].
NSEdit(ns, e) ==
  LET good(x) == [ns |-> x, err |-> ""] IN
  CASE e.op = "filter"  -> good(Filter(ns, LAMBDA c : CharTest(e.p, c)))
    [] e.op = "map"     -> good(MapChars(ns, LAMBDA c : Mapped(e.m, c)))
    [] e.op = "lower"   -> good(MapChars(ns, ToLow))
    [] e.op = "upper"   -> good(MapChars(ns, ToUp))
    [] e.op = "trim"    -> good(Trim(ns, e.l = 1, e.r = 1))
    [] e.op = "prepend" -> good(Prepend(ns, e.t))
    [] e.op = "append"  -> good(AppendText(ns, e.t))
    [] e.op = "replace" -> IF PatError(e.p) # "" THEN [ns |-> ns, err |-> PatError(e.p)]
                           ELSE good(ReplaceCaps(ns, FindMatches(e.p, Norm(ns)), e.t))
    [] e.op = "tr"      -> LET r == ToNormalized(ns, e.ref, e.s, e.e)
                               n == Norm(ns)
                           IN IF r.ok = 0 THEN good(ns)
                              ELSE good(TransformChars(ns, CharsBefore(n, r.s) + 1,
                                                       CharsBefore(n, r.e) + 1, e.dest, e.io))
    [] e.op = "nz"      -> Normalize(e.z, ns)

\* What the caller owes the operation: a transformation is given a range of
\* whole characters and does not consume more characters than it has.
NSDomain(ns, e) ==
  e.op = "tr" =>
    LET r == ToNormalized(ns, e.ref, e.s, e.e)
        n == Norm(ns)
    IN r.ok = 1 => /\ r.s <= r.e /\ IsBoundary(n, r.s) /\ IsBoundary(n, r.e)
                   /\ e.io + Consumes(e.dest) <= CharsBefore(n, r.e) - CharsBefore(n, r.s)

EditOps == {"filter", "map", "lower", "upper", "trim", "prepend", "append", "replace", "tr", "nz"}
ReadOps == {"cn", "co", "gn", "go", "oa"}

NSRead(ns, e) ==
  CASE e.op = "cn" -> ToNormalized(ns, e.ref, e.s, e.e)
    [] e.op = "co" -> ToOriginal(ns, e.ref, e.s, e.e)
    [] e.op = "gn" -> GetNorm(ns, e.ref, e.s, e.e)
    [] e.op = "go" -> GetOrig(ns, e.ref, e.s, e.e)
    [] e.op = "oa" -> [a |-> InverseAlign(ns)]

NSApply(objs, e) ==
  CASE e.op = "new" -> [objs |-> Append(objs, NSNew(e.t)), r |-> R0]
    [] e.op \in EditOps ->
         LET q == NSEdit(objs[e.x], e)
         IN [objs |-> [objs EXCEPT ![e.x] = q.ns], r |-> [err |-> q.err]]
    [] e.op \in ReadOps -> [objs |-> objs, r |-> NSRead(objs[e.x], e)]
    [] e.op = "slice" ->
         LET q == Slice(objs[e.x], e.ref, e.s, e.e)
         IN [objs |-> IF q.ok = 1 THEN Append(objs, q.ns) ELSE objs, r |-> [ok |-> q.ok]]
    [] e.op = "split" ->
         IF PatError(e.p) # "" THEN [objs |-> objs, r |-> [err |-> PatError(e.p), k |-> 0]]
         ELSE LET q == SplitBy(objs[e.x], e.p, e.beh)
              IN [objs |-> objs \o q, r |-> [err |-> "", k |-> Len(q)]]

\* The projection of a text that the public interface shows.
NSProj(ns) ==
  [o   |-> ns.o,
   n   |-> Norm(ns),
   al  |-> Spans(ns),
   rag |-> 0,
   sh  |-> ns.sh,
   len |-> <<ByteLen(Norm(ns)), ByteLen(ns.o), IF Len(ns.n) = 0 THEN 1 ELSE 0, ByteLen(ns.o)>>]

\* Equality with an observed projection, up to what is left open.
SameProj(ns, obs) ==
  LET p == NSProj(ns)
  IN IF p.sh = -1 THEN [p EXCEPT !.sh = obs.sh] = obs ELSE p = obs

\* The text an observed projection stands for; CanAdopt says whether there is one.
CanAdopt(obs) ==
  LET off == Offs(obs.o)
      spans == {<<0, 0>>} \cup {<<off[k], off[k + 1]>> : k \in 1..Len(obs.o)}
  IN /\ ValidText(obs.o) /\ ValidText(obs.n) /\ obs.rag = 0
     /\ \A i \in DOMAIN obs.al : obs.al[i] \in spans
     /\ \A i \in 1..(Len(obs.al) - 1) : obs.al[i][1] <= obs.al[i + 1][1] /\ obs.al[i][2] <= obs.al[i + 1][2]
Adopt(obs) ==
  LET off == Offs(obs.o)
  IN [o |-> obs.o, sh |-> obs.sh,
      n |-> Eager([i \in 1..Len(obs.n) |->
               [c |-> obs.n[i],
                a |-> IF obs.al[i] = <<0, 0>> THEN 0
                      ELSE Reached(off, obs.al[i][1])]])]
=============================================================================
