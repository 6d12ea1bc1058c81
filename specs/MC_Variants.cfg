SPECIFICATION Spec
CONSTANTS
  Letters = {"a", "1", "/", ".", "_"}
  MaxLen = 3
  MaxKnown = 1
INVARIANTS AllSame Reflexive
PROPERTY More
CHECK_DEADLOCK FALSE
