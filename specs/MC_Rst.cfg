INIT Init
NEXT Next
CONSTANTS MaxEntries = 2  Emit = FALSE  Few = FALSE
INVARIANTS RoundTrip Prefixes
CHECK_DEADLOCK FALSE
