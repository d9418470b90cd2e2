SPECIFICATION Spec
INVARIANT WellAligned
INVARIANT Holds
PROPERTY OriginalsKept
VIEW View
CHECK_DEADLOCK FALSE
CONSTANT CT <- MCCT
