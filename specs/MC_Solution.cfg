INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS P = 3
 Emit = FALSE
INVARIANTS RoundTrip Detected
