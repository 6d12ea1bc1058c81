INIT Init
NEXT Next
CONSTANTS MaxSubs = 3  Sizes = {0, 1, 2, 3}  Emit = TRUE
INVARIANTS EmitFile
CHECK_DEADLOCK FALSE
