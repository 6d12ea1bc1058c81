INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS N = 2 MaxOps = 1 Emit = FALSE
INVARIANTS Injective NoConflict Exact
