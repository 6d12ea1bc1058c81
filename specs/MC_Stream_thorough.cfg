INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Total = 7
 MaxFiles = 3
 Emit = FALSE
INVARIANTS Exact
