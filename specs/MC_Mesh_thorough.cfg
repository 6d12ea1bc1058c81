INIT Init
NEXT Next
CONSTANTS MaxSubs = 3  Sizes = {0, 2, 3}  Emit = FALSE
INVARIANTS RoundTrip Prefixes
CHECK_DEADLOCK FALSE
