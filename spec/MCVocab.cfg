SPECIFICATION Spec
INVARIANT IdsBijective
INVARIANT Failing
PROPERTY IdsKept
PROPERTY Grows
PROPERTY DenseStaysDense
CHECK_DEADLOCK FALSE
CONSTANT CT <- MCCT
