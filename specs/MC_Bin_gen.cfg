INIT Init
NEXT Next
CONSTANTS MaxSteps = 12  Emit = TRUE  Rich = TRUE
INVARIANTS EmitFile
CHECK_DEADLOCK FALSE
