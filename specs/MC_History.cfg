INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS N = 4
 M = 3
 Emit = FALSE
INVARIANTS MonotonicInv ListingInv PatchesInv LookupInv
