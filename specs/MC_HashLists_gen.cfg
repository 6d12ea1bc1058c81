SPECIFICATION Spec
CONSTANTS
  MaxOps = 8
  Emit = TRUE
INVARIANT EmitOps
CHECK_DEADLOCK FALSE
