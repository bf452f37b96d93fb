SPECIFICATION Spec
CONSTANTS Deep = FALSE
 MaxCalls = 5
VIEW View
INVARIANTS GotOK FilesOK
PROPERTY StepOK
CHECK_DEADLOCK FALSE
