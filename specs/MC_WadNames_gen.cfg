INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS N = 4 MaxOps = 4 Emit = TRUE
INVARIANTS EmitOps
