INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Emit = TRUE
INVARIANTS EmitCase
