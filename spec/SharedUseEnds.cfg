SPECIFICATION Spec
INVARIANT EndsFresh
INVARIANT CacheSound
INVARIANT Functional
CHECK_DEADLOCK FALSE
CONSTANT CT <- MCCT
PROPERTY AllEnd
