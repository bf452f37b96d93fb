SPECIFICATION Spec
CONSTANTS Deep = FALSE
 MaxCmds = 2
VIEW View
INVARIANTS Defined Sound
PROPERTY StepOK
CHECK_DEADLOCK FALSE
