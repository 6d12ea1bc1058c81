INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 2
 K = 2
 MaxOps = 3
 Gen = FALSE
 Relink = TRUE
 U <- U3
INVARIANTS Correct LinksResolve
