INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Size = 5 Emit = TRUE
INVARIANTS EmitCase
