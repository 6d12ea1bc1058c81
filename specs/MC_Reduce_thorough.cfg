INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Size = 6 Emit = FALSE
INVARIANTS Same Guarantees
