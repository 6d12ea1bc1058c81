SPECIFICATION Spec
CONSTANTS
  NPaths = 4
  NHashes = 3
  MaxOps = 7
  Emit = FALSE
INVARIANTS Consistent TriedAreKnown
PROPERTIES OnlyTried NothingLost UnknownOnlyBecomeKnown FileGrows
VIEW View
CHECK_DEADLOCK FALSE
