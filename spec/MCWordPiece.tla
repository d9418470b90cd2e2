----------------------------- MODULE MCWordPiece -----------------------------
(* WordPiece as the code does it: at each position the candidate shrinks from *)
(* the right until it is in the vocabulary.  Every vocabulary made of a few   *)
(* pieces, every short word, and maximum lengths around its length (C16).     *)
EXTENDS WordPiece, MCText

VARIABLES mo, text,
          start, stop,  \* the candidate: characters start .. stop-1
          toks, phase   \* "scan", "bad", "end"
vars == <<mo, text, start, stop, toks, phase>>

a == 97
ja == 26085
hash == 35
Chars == {a, ja}
Words == TextsUpTo(Chars, MaxLen)

\* Pieces which the vocabularies are made of; MaxDepth of them at most are left out or put in.
Pool(pre) == { <<a>>, <<ja>>, <<a, ja>>, <<a, a>>, pre \o <<a>>, pre \o <<ja>>, pre \o <<ja, a>>, pre \o <<a, a>> }
Unk == <<63>>
\* (the numbering depends on the set only; ids are not dense)
Voc(S, unk) == LET s == SetToSeq(S) IN
               [k \in 1..Len(s) |-> <<s[k], 2 * k>>] \o (IF unk THEN << <<Unk, 1>> >> ELSE <<>>)
Pres == IF MaxDepth = 1 THEN {<<hash>>} ELSE {<<hash>>, <<>>, <<a>>}
Models == UNION { { [k |-> "wp", v |-> Voc(S, u), unk |-> Unk, pre |-> pre, max |-> m]
                    : S \in SUBSET Pool(pre), u \in BOOLEAN, m \in IF MaxDepth = 1 THEN {MaxLen - 1, 100} ELSE {0, 1, MaxLen - 1, 100} }
                  : pre \in Pres }

Init == /\ mo \in Models /\ text \in Words
        /\ start = 1 /\ stop = Len(text) + 1 /\ toks = <<>>
        /\ phase = IF Len(text) > mo.max THEN "bad" ELSE "scan"

Shrink == /\ phase = "scan" /\ start <= Len(text) /\ start < stop
          /\ ~HasTerm(mo.v, PieceAt(mo, text, start, stop))
          /\ stop' = stop - 1
          /\ UNCHANGED <<mo, text, start, toks, phase>>
Take == /\ phase = "scan" /\ start <= Len(text) /\ start < stop
        /\ LET p == PieceAt(mo, text, start, stop) IN
           /\ HasTerm(mo.v, p)
           /\ toks' = Append(toks, <<IdOf(mo.v, p), p, Offs(text)[start], Offs(text)[stop]>>)
        /\ start' = stop /\ stop' = Len(text) + 1
        /\ UNCHANGED <<mo, text, phase>>
GiveUp == /\ phase = "scan" /\ start <= Len(text) /\ start = stop
          /\ phase' = "bad" /\ UNCHANGED <<mo, text, start, stop, toks>>
Finish == /\ \/ phase = "bad"
             \/ phase = "scan" /\ start > Len(text)
          /\ toks' = IF phase = "bad" /\ HasTerm(mo.v, mo.unk) THEN << <<IdOf(mo.v, mo.unk), mo.unk, 0, ByteLen(text)>> >>
                     ELSE IF phase = "bad" THEN <<>> ELSE toks
          /\ phase' = "end"
          /\ UNCHANGED <<mo, text, start, stop>>
          /\ Emit("fn", <<[op |-> "tok", mo |-> mo, t |-> text]>>, [x |-> 0], [r |-> WpTokenize(mo, text)])
Next == Shrink \/ Take \/ GiveUp \/ Finish
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
Agrees == phase = "end" => toks = WpTokenize(mo, text).ts

\* While scanning: the tokens tile what is behind, each the longest at its place.
Longest == phase = "scan" =>
  /\ \A k \in DOMAIN toks : toks[k][3] = (IF k = 1 THEN 0 ELSE toks[k - 1][4]) /\ toks[k][3] < toks[k][4]
  /\ Offs(text)[start] = (IF toks = <<>> THEN 0 ELSE toks[Len(toks)][4])
  /\ \A k \in DOMAIN toks : LET i == CharsBefore(text, toks[k][3]) + 1
                                j == CharsBefore(text, toks[k][4]) + 1
                            IN \A j2 \in (j + 1)..(Len(text) + 1) : ~HasTerm(mo.v, PieceAt(mo, text, i, j2))
\* A result is a tiling, or the unknown token alone, or an error.
Whole == phase = "end" =>
  LET r == WpTokenize(mo, text) IN
  \/ r.err # "" /\ r.ts = <<>>
  \/ r.err = "" /\ Len(text) = 0 /\ (r.ts = <<>> \/ (mo.max < 0 /\ Len(r.ts) = 1))
  \/ r.err = "" /\ r.ts # <<>> /\ r.ts[1][3] = 0 /\ r.ts[Len(r.ts)][4] = ByteLen(text)
=============================================================================
