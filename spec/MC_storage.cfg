SPECIFICATION Spec
CONSTANTS Deep = FALSE
 NB = 9
INVARIANTS OnlyOwned Quiet NoGrowth Bounded
CHECK_DEADLOCK FALSE
