SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 4
 W = 3
 Emit = FALSE
INVARIANTS Requested Complete
PROPERTIES Terminates
