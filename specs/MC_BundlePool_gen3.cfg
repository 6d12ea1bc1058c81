INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS N = 3
 W = 3
 Emit = TRUE
INVARIANTS EmitSchedule
