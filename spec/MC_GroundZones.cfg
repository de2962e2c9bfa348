SPECIFICATION Spec
CONSTANTS N = 2 M = 2 R = 3 G = 2
INVARIANT Inv
CHECK_DEADLOCK FALSE
