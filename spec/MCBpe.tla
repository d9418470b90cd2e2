-------------------------------- MODULE MCBpe --------------------------------
(* Byte pair encoding as the code does it: symbols linked to their            *)
(* neighbours, and a queue of candidate merges of which some expire.  Every    *)
(* run, over every small word and merge table, must end where the            *)
(* specification's merging ends (C13), and every single merge must be the     *)
(* best one of the word at that moment.  With Drop, candidates may be put      *)
(* aside as dropout does (C15): every run ends in a reachable word.            *)
(*                                                                           *)
(* Each word and table is printed as a test case.                            *)
EXTENDS Bpe, MCText

Drop == Prop = "C15"

VARIABLES word0,  \* the word at first: sequence of [id, len]
          table,  \* the merges
          sym,    \* the symbols [id, len, prev, next]; 0: none
          queue,  \* candidates [rank, id, pos], a bag as a sequence
          skip,   \* candidates put aside
          phase   \* "run" or "end"
vars == <<word0, table, sym, queue, skip, phase>>

Ids == 1..2          \* ids of characters; merges may give these, 3 and 4
AllIds == 1..4

\* Tables of MaxDepth merges: distinct pairs, ranks in the order of the list,
\* or with ties.
Pairs == AllIds \X AllIds
Ranks == IF MaxDepth = 1 THEN {<<0>>} ELSE IF MaxDepth = 2 THEN {<<0, 1>>, <<1, 0>>, <<0, 0>>}
         ELSE {<<0, 1, 2>>, <<2, 1, 0>>, <<1, 2, 0>>, <<0, 0, 1>>, <<1, 0, 0>>, <<0, 0, 0>>}

\* Only tables whose pairs can come up.
Possible(ps, res) ==
  LET \* the ids that can appear, by a fixed point of three rounds
      grow(S) == S \cup {res[i] : i \in {j \in DOMAIN ps : ps[j][1] \in S /\ ps[j][2] \in S}}
      S3 == grow(grow(grow(Ids)))
  IN \A i \in DOMAIN ps : ps[i][1] \in S3 /\ ps[i][2] \in S3

\* (pairs in increasing order, as the ranks give every order)
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
PairLists ==
  CASE MaxDepth = 1 -> {<<p>> : p \in Pairs}
    [] MaxDepth = 2 -> {x \in Pairs \X Pairs : Before(x[1], x[2])}
    [] OTHER -> {x \in Pairs \X Pairs \X Pairs : Before(x[1], x[2]) /\ Before(x[2], x[3])}
Results == CASE MaxDepth = 1 -> {<<r>> : r \in {1, 3}}
             [] MaxDepth = 2 -> {1, 3, 4} \X {3, 4}
             [] OTHER -> {1, 3} \X {3, 4} \X {3, 4}
Tables == {[i \in 1..MaxDepth |-> <<x[1][i][1], x[1][i][2], x[2][i], x[3][i]>>] :
           x \in {y \in PairLists \X Ranks \X Results : Possible(y[1], y[3])}}

Words == {[i \in 1..Len(t) |-> [id |-> t[i], len |-> t[i]]] : t \in TextsUpTo(Ids, MaxLen)}

--------------------------------------------------------------------------------
Cand(m, l, r, pos) ==
  LET h == MergeHit(m, l, r) IN
  IF h = {} THEN <<>> ELSE LET x == m[CHOOSE i \in h : TRUE] IN <<[rank |-> x[3], id |-> x[4], pos |-> pos]>>

Link(w) == [i \in 1..Len(w) |-> [id |-> w[i].id, len |-> w[i].len, prev |-> i - 1,
                                 next |-> IF i = Len(w) THEN 0 ELSE i + 1]]
FirstQueue(w, m) == FoldLeft(LAMBDA q, i : q \o Cand(m, w[i].id, w[i + 1].id, i), <<>>,
                             [i \in 1..(Len(w) - 1) |-> i])

Init == /\ word0 \in Words
        /\ table \in Tables
        /\ sym = Link(word0)
        /\ queue = FirstQueue(word0, table)
        /\ skip = <<>>
        /\ phase = "run"

\* The front of the queue: lowest rank, then leftmost.
QueueFront(q) == CHOOSE i \in DOMAIN q : \A j \in DOMAIN q :
              q[i].rank < q[j].rank \/ (q[i].rank = q[j].rank /\ (q[i].pos < q[j].pos \/ (q[i].pos = q[j].pos /\ i <= j)))
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))

\* The word as it is now.
Compact(s) == LET left == SelectSeq(s, LAMBDA x : x.len > 0) IN [i \in 1..Len(left) |-> [id |-> left[i].id, len |-> left[i].len]]

Expired(s, c) ==
  \/ s[c.pos].len = 0
  \/ s[c.pos].next = 0
  \/ Cand(table, s[c.pos].id, s[s[c.pos].next].id, c.pos) # <<c>>

MergedSym(s, c) ==
  LET p == c.pos
      n == s[p].next
      s1 == [s EXCEPT ![p] = [@ EXCEPT !.id = c.id, !.len = @ + s[n].len, !.next = s[n].next],
                      ![n] = [@ EXCEPT !.len = 0]]
  IN IF s[n].next = 0 THEN s1 ELSE [s1 EXCEPT ![s[n].next].prev = p]

NewCands(s, p) ==
  (IF s[p].prev = 0 THEN <<>> ELSE Cand(table, s[s[p].prev].id, s[p].id, s[p].prev))
  \o (IF s[p].next = 0 THEN <<>> ELSE Cand(table, s[p].id, s[s[p].next].id, p))

Pop ==
  /\ phase = "run" /\ queue # <<>>
  /\ LET i == QueueFront(queue)
         c == queue[i]
         rest == Without(queue, i)
     IN \/ /\ Drop
           /\ queue' = rest /\ skip' = Append(skip, c) /\ UNCHANGED sym
        \/ /\ skip' = <<>>
           /\ IF Expired(sym, c)
              THEN queue' = rest \o skip /\ UNCHANGED sym
              ELSE /\ sym' = MergedSym(sym, c)
                   /\ queue' = rest \o skip \o NewCands(sym', c.pos)
  /\ UNCHANGED <<word0, table, phase>>

IdLens(w) == [i \in 1..Len(w) |-> <<w[i].id, w[i].len>>]

Mode == IF Drop THEN "drop" ELSE "mall"
Finish ==
  /\ phase = "run" /\ queue = <<>>
  /\ phase' = "end"
  /\ UNCHANGED <<word0, table, sym, queue, skip>>
  /\ ~Drop => Emit("fn", <<[op |-> "mall", w |-> IdLens(word0), m |-> table]>>, [x |-> 0],
                   [r |-> [w |-> MergeAll(word0, table)]])

Next == Pop \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

--------------------------------------------------------------------------------
\* C13
EndsMerged == (phase = "end" /\ ~Drop) => Compact(sym) = MergeAll(word0, table)

\* Each change of the word is the best merge of the word (without dropout), or
\* some merge of it.
StepsMerge ==
  [][Compact(sym') # Compact(sym) =>
       LET w == Compact(sym) IN
       IF Drop THEN \E i \in Applicable(w, table) : Merged(w, table, i) = Compact(sym')
       ELSE /\ Applicable(w, table) # {}
            /\ Merged(w, table, BestMerge(w, table)) = Compact(sym')]_vars

\* Every applicable merge is in the queue (or put aside): none is forgotten.
NothingForgotten ==
  phase = "run" =>
    LET all == queue \o skip IN
    \A p \in DOMAIN sym : (sym[p].len > 0 /\ sym[p].next # 0) =>
      LET c == Cand(table, sym[p].id, sym[sym[p].next].id, p) IN
      c # <<>> => \/ \E i \in DOMAIN all : all[i] = c[1]
                  \/ Drop /\ queue = <<>>

\* The symbols keep tiling the word and their links agree.
LinksAgree ==
  LET left == SelectSeq([i \in 1..Len(sym) |-> i], LAMBDA i : sym[i].len > 0) IN
  /\ FoldLeft(LAMBDA s, i : s + sym[i].len, 0, left) = FoldLeft(LAMBDA s, x : s + x.len, 0, word0)
  /\ \A k \in 1..Len(left) :
       /\ sym[left[k]].next = (IF k = Len(left) THEN 0 ELSE left[k + 1])
       /\ sym[left[k]].prev = (IF k = 1 THEN 0 ELSE left[k - 1])

\* Merging ends: each merge shortens the word.  (Popping without merging
\* shortens the queue.)
Ends == <>(phase = "end")
=============================================================================
