INIT Init
NEXT Next
CONSTANTS Max = 3  Emit = TRUE
INVARIANTS EmitFile
CHECK_DEADLOCK FALSE
