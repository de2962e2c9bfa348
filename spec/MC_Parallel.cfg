SPECIFICATION Spec
CONSTANTS MaxT = 4 MaxP = 4
INVARIANT Inv
PROPERTY Finishes
CHECK_DEADLOCK FALSE
