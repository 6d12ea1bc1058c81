INIT Init
NEXT Next
CONSTANTS MaxSteps = 2  Emit = FALSE  Rich = TRUE
INVARIANTS RoundTrip Prefixes
CHECK_DEADLOCK FALSE
