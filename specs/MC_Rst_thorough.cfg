INIT Init
NEXT Next
CONSTANTS MaxEntries = 3  Emit = FALSE  Few = TRUE
INVARIANTS RoundTrip Prefixes
CHECK_DEADLOCK FALSE
