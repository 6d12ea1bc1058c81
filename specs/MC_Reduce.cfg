INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Size = 4 Emit = FALSE
INVARIANTS Same Guarantees Unique
