SPECIFICATION Spec
CONSTANT Depth = 7
INVARIANT Inv
PROPERTY Other
CHECK_DEADLOCK FALSE
