SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
