SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Steps = 5
INVARIANTS Known Again Complete Lists
PROPERTY Grows
