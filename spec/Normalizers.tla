----------------------------- MODULE Normalizers -----------------------------
(* The normalizers (package normalizers/...).  A normalizer is a record with *)
(* its kind in field k; Normalize gives the text after it and the error it   *)
(* returns ("" for none).                                                    *)
EXTENDS NormalizedString

\* Character predicates: a set of characters or a class, possibly negated.
CharTest(p, c) ==
  IF p.k = "fn" THEN InClass(p, c)
  ELSE IF p.neg = 1 THEN ~ClassTest(p.name, c) ELSE ClassTest(p.name, c)

\* Character mappings: pairs <<from, to>>; other characters stay.
Mapped(m, c) ==
  LET hit == {i \in DOMAIN m : m[i][1] = c} IN IF hit = {} THEN c ELSE m[MinOf(hit)][2]

--------------------------------------------------------------------------------
(* BertNormalizer *)

\* Control characters, except the ones treated as white space.
IsBertControl(c) == c \notin {9, 10, 13} /\ IsOther(c)
IsBertWhite(c)   == c \in {9, 10, 13} \/ IsWhite(c)

CleanText(ns) ==
  MapChars(Filter(ns, LAMBDA c : ~(c = 0 \/ c = 65533 \/ IsBertControl(c))),
           LAMBDA c : IF IsBertWhite(c) THEN 32 ELSE c)

SpaceCjk(ns) ==
  [ns EXCEPT !.n = FoldLeft(LAMBDA acc, x :
     IF IsCjk(x.c) THEN acc \o << [c |-> 32, a |-> x.a], x, [c |-> 32, a |-> x.a] >>
     ELSE Append(acc, x), <<>>, @)]

StripAccents(ns) == Filter(ns, LAMBDA c : ~IsMn(c))

Bert(z, ns) ==
  LET s1 == IF z.cl = 1 THEN CleanText(ns) ELSE ns
      s2 == IF z.cj = 1 THEN SpaceCjk(s1) ELSE s1
      s3 == IF z.ac = 1 THEN StripAccents(s2) ELSE s2
  IN IF z.lo = 1 THEN MapChars(s3, ToLow) ELSE s3

--------------------------------------------------------------------------------

RECURSIVE Normalize(_, _)
Normalize(z, ns) ==
  LET good(x) == [ns |-> x, err |-> ""] IN
  CASE z.k = "bert"  -> good(Bert(z, ns))
    [] z.k = "lower" -> good(MapChars(ns, ToLow))
    [] z.k = "strip" -> good(Trim(ns, z.l = 1, z.r = 1))
    [] z.k = "seq"   -> FoldLeft(LAMBDA acc, y : IF acc.err # "" THEN acc ELSE Normalize(y, acc.ns),
                                 good(ns), z.zs)
    \* custom normalizers of the harness
    [] z.k = "fail"  -> [ns |-> ns, err |-> z.e]
    [] z.k = "mark"  -> good(AppendText(ns, z.t))
    [] z.k = "mapz"  -> good(MapChars(ns, LAMBDA c : Mapped(z.m, c)))
    \* a custom normalizer that changes the text and then fails
    [] z.k = "markfail" -> [ns |-> AppendText(ns, z.t), err |-> z.e]
=============================================================================
