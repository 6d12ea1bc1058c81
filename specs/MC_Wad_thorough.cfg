INIT Init
NEXT Next
CONSTANTS N = 3  MaxSubs = 2  Emit = FALSE
INVARIANTS Decodes Reads
CHECK_DEADLOCK FALSE
