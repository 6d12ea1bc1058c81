INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Size = 6 Emit = TRUE
INVARIANTS EmitCase
