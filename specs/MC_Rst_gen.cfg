INIT Init
NEXT Next
CONSTANTS MaxEntries = 6  Emit = TRUE  Few = FALSE
INVARIANTS EmitFile
CHECK_DEADLOCK FALSE
