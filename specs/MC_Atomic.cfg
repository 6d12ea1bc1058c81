SPECIFICATION Spec
CONSTANTS Bundles = {1, 2}  Files = {1, 2}  Blocks = 2  Links = TRUE  InPlace = FALSE  MaxFaults = 2  Emit = FALSE
INVARIANTS NoTruncated NeverTruncated NoDangling RerunGives CleanFailures
PROPERTIES Completes
CHECK_DEADLOCK FALSE
