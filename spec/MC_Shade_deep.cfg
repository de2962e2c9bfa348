SPECIFICATION Spec
CONSTANTS Stride = 1 K = 1 M = 1 WithViews = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
