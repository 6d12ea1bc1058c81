INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
VIEW View
CONSTANTS
 N = 10
 Emit = FALSE
INVARIANTS Order NoRepeat
PROPERTIES Kept
