SPECIFICATION SSpec
CONSTANTS MaxOps = 12
 Slots <- SSlots
 Files <- SFiles
 Its <- SIts
 BuildParams <- SParams
 Filters <- SFilters
INVARIANTS MemSound DiskSound ItsSound
CHECK_DEADLOCK FALSE
