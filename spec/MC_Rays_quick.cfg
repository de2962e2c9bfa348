SPECIFICATION Spec
CONSTANTS Stride = 389 K = 8 M = 40 WithViews = TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE
