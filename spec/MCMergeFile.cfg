SPECIFICATION Spec
INVARIANT Agrees
INVARIANT OnePerPair
INVARIANT RanksInOrder
INVARIANT RanksBelow
CHECK_DEADLOCK FALSE
CONSTANT CT <- MCCT
