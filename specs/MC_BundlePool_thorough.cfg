SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 5
 W = 3
 Emit = FALSE
INVARIANTS Requested Complete
PROPERTIES Terminates
