SPECIFICATION Spec
CONSTANTS
  NPaths = 8
  NHashes = 6
  MaxOps = 8
  Emit = TRUE
INVARIANT EmitOps
CHECK_DEADLOCK FALSE
