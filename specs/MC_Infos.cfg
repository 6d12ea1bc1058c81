INIT Init
NEXT Next
CONSTANTS Max = 2  Emit = FALSE
INVARIANTS RoundTrip Prefixes
CHECK_DEADLOCK FALSE
