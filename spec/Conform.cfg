SPECIFICATION TSpec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
CONSTANT CT <- TraceCT
