INIT Init
NEXT Next
CONSTANT Deep = FALSE
INVARIANTS Inv Agree
CHECK_DEADLOCK FALSE
