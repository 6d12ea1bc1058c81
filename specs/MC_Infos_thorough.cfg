INIT Init
NEXT Next
CONSTANTS Max = 3  Emit = FALSE
INVARIANTS RoundTrip Prefixes
CHECK_DEADLOCK FALSE
