SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
CONSTANTS MaxOps = 4
 Emit = FALSE
INVARIANTS Sane NoStuck
PROPERTIES DoneIsComplete OthersKept
