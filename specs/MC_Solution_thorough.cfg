INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS P = 4
 Emit = FALSE
INVARIANTS RoundTrip Detected
