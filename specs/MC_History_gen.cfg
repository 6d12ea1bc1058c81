INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS N = 7
 M = 4
 Emit = TRUE
INVARIANTS EmitHistory
