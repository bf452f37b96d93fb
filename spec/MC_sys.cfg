SPECIFICATION MSpec
CONSTANTS Deep = FALSE
 MaxOps = 4
 Slots <- MSlots
 Files <- MFiles
 Its <- MIts
 BuildParams <- MParams
 Filters <- MFilters
VIEW View
INVARIANTS MemSound DiskSound ItsSound
PROPERTY StepOK
CHECK_DEADLOCK FALSE
