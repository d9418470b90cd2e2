------------------------------- MODULE Models -------------------------------
(* The models, as one operation.                                             *)
EXTENDS Bpe, WordPiece

ModelTokenize(mo, t) ==
  CASE mo.k = "bpe" -> BpeTokenize(mo, t)
    [] mo.k = "wp"  -> WpTokenize(mo, t)
=============================================================================
