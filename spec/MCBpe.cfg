SPECIFICATION Spec
INVARIANT EndsMerged
INVARIANT NothingForgotten
INVARIANT LinksAgree
PROPERTY StepsMerge
CHECK_DEADLOCK FALSE
CONSTANT CT <- MCCT
