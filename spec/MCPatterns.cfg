SPECIFICATION Spec
INVARIANT Covering
INVARIANT Converting
CHECK_DEADLOCK FALSE
CONSTANT CT <- MCCT
