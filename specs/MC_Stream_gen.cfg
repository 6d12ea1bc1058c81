INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Total = 12
 MaxFiles = 5
 Emit = TRUE
INVARIANTS EmitCase
