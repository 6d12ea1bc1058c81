INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 3
 K = 2
 MaxOps = 5
 Gen = FALSE
 Relink = TRUE
 U <- U2
INVARIANTS Correct LinksResolve
