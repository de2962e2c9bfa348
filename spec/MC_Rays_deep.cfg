SPECIFICATION Spec
CONSTANTS Stride = 41 K = 8 M = 40 WithViews = TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE
