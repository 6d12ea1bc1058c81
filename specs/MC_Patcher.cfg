SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
CONSTANTS MaxOps = 3
 Emit = FALSE
INVARIANTS Sane NoStuck
PROPERTIES DoneIsComplete OthersKept
