INIT Init
NEXT Next
CONSTANTS MaxSubs = 2  Sizes = {0, 1, 2}  Emit = FALSE
INVARIANTS RoundTrip Prefixes
CHECK_DEADLOCK FALSE
