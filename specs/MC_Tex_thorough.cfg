INIT Init
NEXT Next
CONSTANTS Widths = {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 16, 17}  Heights = {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16}  Emit = FALSE
INVARIANTS Largest Refused Cut
CHECK_DEADLOCK FALSE
