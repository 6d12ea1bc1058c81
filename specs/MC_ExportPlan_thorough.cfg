SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
CONSTANTS MaxOps = 10
 MaxMinor = 5
 Emit = FALSE
INVARIANTS PlanFound OldestFirst
PROPERTIES UpdateMakesNoDirectory StoredKept
