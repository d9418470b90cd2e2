SPECIFICATION Spec
INVARIANT Agrees
INVARIANT Longest
INVARIANT Whole
CHECK_DEADLOCK FALSE
CONSTANT CT <- MCCT
