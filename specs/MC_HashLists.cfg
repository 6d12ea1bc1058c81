SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Emit = FALSE
INVARIANTS NeverTruncated RoundTrip
PROPERTIES LoadIsDisk FreshKept
VIEW View
CHECK_DEADLOCK FALSE
