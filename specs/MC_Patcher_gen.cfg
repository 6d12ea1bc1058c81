SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxOps = 5
 Emit = TRUE
INVARIANTS EmitHist
