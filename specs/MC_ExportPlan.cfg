SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
CONSTANTS MaxOps = 7
 MaxMinor = 4
 Emit = FALSE
INVARIANTS PlanFound OldestFirst
PROPERTIES UpdateMakesNoDirectory StoredKept
