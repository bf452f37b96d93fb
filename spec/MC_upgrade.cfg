INIT Init
NEXT Next
CONSTANT Deep = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
