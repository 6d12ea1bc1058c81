INIT Init
NEXT Next
CONSTANTS N = 2  MaxSubs = 2  Emit = FALSE
INVARIANTS Decodes Reads
CHECK_DEADLOCK FALSE
