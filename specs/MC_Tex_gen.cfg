INIT Init
NEXT Next
CONSTANTS Widths = {1, 3, 4, 5, 8}  Heights = {1, 2, 4, 7}  Emit = TRUE
INVARIANTS EmitFile
CHECK_DEADLOCK FALSE
