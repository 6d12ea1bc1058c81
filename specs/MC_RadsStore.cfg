SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Steps = 3
INVARIANTS Known Again Complete Lists
PROPERTY Grows
