INIT Init
NEXT Next
CONSTANTS Bundles = {1, 2}  Files = {1, 2}  Blocks = 2  Links = TRUE  InPlace = FALSE  MaxFaults = 3  Emit = TRUE
INVARIANTS EmitFaults
CHECK_DEADLOCK FALSE
