SPECIFICATION Spec
INVARIANT Agrees
INVARIANT Tiling
INVARIANT FusionExact
INVARIANT DropoutSound
INVARIANT SharesSound
CHECK_DEADLOCK FALSE
CONSTANT CT <- MCCT
