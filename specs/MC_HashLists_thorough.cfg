SPECIFICATION Spec
CONSTANTS
  MaxOps = 7
  Emit = FALSE
INVARIANTS NeverTruncated RoundTrip
PROPERTIES LoadIsDisk FreshKept
VIEW View
CHECK_DEADLOCK FALSE
