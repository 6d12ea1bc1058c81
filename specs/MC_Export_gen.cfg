INIT GenInit
NEXT GenNext
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 3
 K = 2
 MaxOps = 6
 Gen = TRUE
 Relink = TRUE
 U <- U4
INVARIANTS Correct Emit
