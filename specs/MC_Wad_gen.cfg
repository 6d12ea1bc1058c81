INIT Init
NEXT Next
CONSTANTS N = 5  MaxSubs = 3  Emit = TRUE
INVARIANTS EmitWad
CHECK_DEADLOCK FALSE
