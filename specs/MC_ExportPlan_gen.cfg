INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS MaxOps = 9
 MaxMinor = 5
 Emit = TRUE
INVARIANTS EmitOps
