SPECIFICATION Spec
CONSTANT Depth = 6
INVARIANT Inv
PROPERTY Other
CHECK_DEADLOCK FALSE
