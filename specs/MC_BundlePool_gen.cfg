INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS N = 12
 W = 8
 Emit = TRUE
INVARIANTS EmitSchedule
