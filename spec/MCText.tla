------------------------------- MODULE MCText -------------------------------
(* The character classes of the characters which the bounded state machines  *)
(* use, and helpers to enumerate small texts and to print test cases.        *)
EXTENDS Text, TLC, IOUtils, Json

Prop == IOEnv.VERIF_PROP
\* Bounds, chosen by the check: the length of texts and histories.
MaxLen == atoi(IOEnv.VERIF_LEN)
MaxDepth == atoi(IOEnv.VERIF_DEPTH)

Row(c, ws, low, up, pu, mn, ot, rs, rw, rl, rn, rf) ==
  c :> [c |-> c, ws |-> ws, low |-> low, up |-> up, pu |-> pu, mn |-> mn, ot |-> ot,
        rs |-> rs, rw |-> rw, rl |-> rl, rn |-> rn, rf |-> rf]

\*       char    space     lower     upper  punct  Mn     other  \s     \w     \p{L}  \p{N}  fold
Table ==
     Row(     0, FALSE,      0,      0, FALSE, FALSE, TRUE , FALSE, FALSE, FALSE, FALSE,   0)
  @@ Row(     9, TRUE ,      9,      9, FALSE, FALSE, TRUE , TRUE , FALSE, FALSE, FALSE,   0)
  @@ Row(    10, TRUE ,     10,     10, FALSE, FALSE, TRUE , TRUE , FALSE, FALSE, FALSE,   0)
  @@ Row(    13, TRUE ,     13,     13, FALSE, FALSE, TRUE , TRUE , FALSE, FALSE, FALSE,   0)
  @@ Row(    31, FALSE,     31,     31, FALSE, FALSE, TRUE , FALSE, FALSE, FALSE, FALSE,   0)
  @@ Row(    32, TRUE ,     32,     32, FALSE, FALSE, FALSE, TRUE , FALSE, FALSE, FALSE,   0)
  @@ Row(    35, FALSE,     35,     35, TRUE , FALSE, FALSE, FALSE, FALSE, FALSE, FALSE,   0)
  @@ Row(    39, FALSE,     39,     39, TRUE , FALSE, FALSE, FALSE, FALSE, FALSE, FALSE,   0)
  @@ Row(    46, FALSE,     46,     46, TRUE , FALSE, FALSE, FALSE, FALSE, FALSE, FALSE,   0)
  @@ Row(    48, FALSE,     48,     48, FALSE, FALSE, FALSE, FALSE, TRUE , FALSE, TRUE ,   0)
  @@ Row(    63, FALSE,     63,     63, TRUE , FALSE, FALSE, FALSE, FALSE, FALSE, FALSE,   0)
  @@ Row(    65, FALSE,     97,     65, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE,   0)
  @@ Row(    66, FALSE,     98,     66, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE,   0)
  @@ Row(    67, FALSE,     99,     67, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE,   0)
  @@ Row(    73, FALSE,    105,     73, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE,   0)
  @@ Row(    75, FALSE,    107,     75, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE,   0)
  @@ Row(    76, FALSE,    108,     76, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE, 108)
  @@ Row(    83, FALSE,    115,     83, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE, 115)
  @@ Row(    84, FALSE,    116,     84, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE, 116)
  @@ Row(    85, FALSE,    117,     85, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE,   0)
  @@ Row(    88, FALSE,    120,     88, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE,   0)
  @@ Row(    90, FALSE,    122,     90, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE,   0)
  @@ Row(    91, FALSE,     91,     91, TRUE , FALSE, FALSE, FALSE, FALSE, FALSE, FALSE,   0)
  @@ Row(    93, FALSE,     93,     93, TRUE , FALSE, FALSE, FALSE, FALSE, FALSE, FALSE,   0)
  @@ Row(    95, FALSE,     95,     95, TRUE , FALSE, FALSE, FALSE, TRUE , FALSE, FALSE,   0)
  @@ Row(    97, FALSE,     97,     65, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE,   0)
  @@ Row(    98, FALSE,     98,     66, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE,   0)
  @@ Row(    99, FALSE,     99,     67, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE,   0)
  @@ Row(   105, FALSE,    105,     73, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE,   0)
  @@ Row(   107, FALSE,    107,     75, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE,   0)
  @@ Row(   108, FALSE,    108,     76, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE, 108)
  @@ Row(   115, FALSE,    115,     83, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE, 115)
  @@ Row(   116, FALSE,    116,     84, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE, 116)
  @@ Row(   117, FALSE,    117,     85, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE,   0)
  @@ Row(   120, FALSE,    120,     88, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE,   0)
  @@ Row(   122, FALSE,    122,     90, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE,   0)
  @@ Row(   127, FALSE,    127,    127, FALSE, FALSE, TRUE , FALSE, FALSE, FALSE, FALSE,   0)
  @@ Row(   133, TRUE ,    133,    133, FALSE, FALSE, TRUE , TRUE , FALSE, FALSE, FALSE,   0)
  @@ Row(   159, FALSE,    159,    159, FALSE, FALSE, TRUE , FALSE, FALSE, FALSE, FALSE,   0)
  @@ Row(   160, TRUE ,    160,    160, FALSE, FALSE, FALSE, TRUE , FALSE, FALSE, FALSE,   0)
  @@ Row(   201, FALSE,    233,    201, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE,   0)
  @@ Row(   233, FALSE,    233,    201, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE,   0)
  @@ Row(   300, FALSE,    301,    300, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE,   0)
  @@ Row(   301, FALSE,    301,    300, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE,   0)
  @@ Row(   304, FALSE,    105,    304, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE,   0)
  @@ Row(   769, FALSE,    769,    769, FALSE, TRUE , FALSE, FALSE, TRUE , FALSE, FALSE,   0)
  @@ Row(   888, FALSE,    888,    888, FALSE, FALSE, TRUE , FALSE, FALSE, FALSE, FALSE,   0)
  @@ Row(   931, FALSE,    963,    931, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE,   0)
  @@ Row(   962, FALSE,    962,    931, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE,   0)
  @@ Row(   963, FALSE,    963,    931, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE,   0)
  @@ Row(  1160, FALSE,   1160,   1160, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE,   0)
  @@ Row(  2307, FALSE,   2307,   2307, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE,   0)
  @@ Row(  8203, FALSE,   8203,   8203, FALSE, FALSE, TRUE , FALSE, FALSE, FALSE, FALSE,   0)
  @@ Row(  8232, TRUE ,   8232,   8232, FALSE, FALSE, FALSE, TRUE , FALSE, FALSE, FALSE,   0)
  @@ Row(  8490, FALSE,    107,   8490, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE,   0)
  @@ Row(  9601, FALSE,   9601,   9601, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE,   0)
  @@ Row( 11904, FALSE,  11904,  11904, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE,   0)
  @@ Row( 12288, TRUE ,  12288,  12288, FALSE, FALSE, FALSE, TRUE , FALSE, FALSE, FALSE,   0)
  @@ Row( 12353, FALSE,  12353,  12353, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE,   0)
  @@ Row( 26085, FALSE,  26085,  26085, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE,   0)
  @@ Row( 44032, FALSE,  44032,  44032, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE,   0)
  @@ Row( 57344, FALSE,  57344,  57344, FALSE, FALSE, TRUE , FALSE, FALSE, FALSE, FALSE,   0)
  @@ Row( 64256, FALSE,  64256,  64256, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE,   0)
  @@ Row( 65313, FALSE,  65345,  65313, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE,   0)
  @@ Row( 65345, FALSE,  65345,  65313, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE,   0)
  @@ Row( 65533, FALSE,  65533,  65533, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE,   0)
  @@ Row(128512, FALSE, 128512, 128512, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE,   0)
  @@ Row(131072, FALSE, 131072, 131072, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE,   0)
  @@ Row(178208, FALSE, 178208, 178208, FALSE, FALSE, FALSE, FALSE, TRUE , TRUE , FALSE,   0)
MCCT == Table

\* All texts of at most n characters of a set.
RECURSIVE TextsUpTo(_, _)
TextsUpTo(S, n) ==
  IF n = 0 THEN {<<>>} ELSE LET T == TextsUpTo(S, n - 1) IN T \cup {Append(t, c) : t \in T, c \in S}

\* A test case for the real code: a history, and what the specification says
\* comes of its last event.
Emit(kind, ev, pre, exp) == PrintT(ToJson([kind |-> kind, ev |-> ev, pre |-> pre, exp |-> exp]))
=============================================================================
