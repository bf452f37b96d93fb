SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANT DInv
CHECK_DEADLOCK FALSE
