SPECIFICATION Spec
INVARIANT Provenance
INVARIANT NormalizedTile
INVARIANT PlainPieces
INVARIANT Lossless
INVARIANT Maximal
INVARIANT Marked
INVARIANT Encodable
INVARIANT StandInsDiffer
PROPERTY TokenizedKept
VIEW View
CHECK_DEADLOCK FALSE
CONSTANT CT <- MCCT
