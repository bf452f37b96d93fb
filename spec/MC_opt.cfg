SPECIFICATION Spec
CONSTANTS Deep = FALSE
 MaxOpts = 3
INVARIANT Inv
CHECK_DEADLOCK FALSE
