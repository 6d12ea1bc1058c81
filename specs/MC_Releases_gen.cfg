INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 12
 Emit = TRUE
INVARIANTS EmitOps
