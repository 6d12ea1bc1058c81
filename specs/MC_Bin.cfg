INIT Init
NEXT Next
CONSTANTS MaxSteps = 2  Emit = FALSE  Rich = FALSE
INVARIANTS RoundTrip Prefixes
CHECK_DEADLOCK FALSE
