SPECIFICATION Spec
INVARIANT WellAligned
INVARIANT BertSaid
INVARIANT Idempotent
INVARIANT Flattens
VIEW View
CHECK_DEADLOCK FALSE
CONSTANT CT <- MCCT
