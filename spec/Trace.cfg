INIT Init
NEXT Next
INVARIANT TypeInv
CHECK_DEADLOCK FALSE
