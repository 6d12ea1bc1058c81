SPECIFICATION Spec
CONSTANTS
  NPaths = 3
  NHashes = 2
  MaxOps = 4
  Emit = FALSE
INVARIANTS Consistent TriedAreKnown
PROPERTIES OnlyTried NothingLost UnknownOnlyBecomeKnown FileGrows
VIEW View
CHECK_DEADLOCK FALSE
