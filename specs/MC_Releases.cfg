INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
VIEW View
CONSTANTS
 N = 8
 Emit = FALSE
INVARIANTS Order NoRepeat
PROPERTIES Kept
