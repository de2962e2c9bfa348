SPECIFICATION Spec
CONSTANTS N = 2 G = 4 Depth = 5
INVARIANTS Inv Idem Commute
PROPERTY Monotone
CHECK_DEADLOCK FALSE
