SPECIFICATION Spec
INVARIANT EndsMerged
INVARIANT NothingForgotten
INVARIANT LinksAgree
PROPERTY StepsMerge
PROPERTY Ends
CHECK_DEADLOCK FALSE
CONSTANT CT <- MCCT
