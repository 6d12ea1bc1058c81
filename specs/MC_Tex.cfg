INIT Init
NEXT Next
CONSTANTS Widths = {1, 2, 4, 5, 8, 9}  Heights = {1, 3, 4, 5}  Emit = FALSE
INVARIANTS Largest Refused Cut
CHECK_DEADLOCK FALSE
