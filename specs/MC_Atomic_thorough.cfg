SPECIFICATION Spec
CONSTANTS Bundles = {1, 2}  Files = {1, 2, 3}  Blocks = 2  Links = TRUE  InPlace = FALSE  MaxFaults = 3  Emit = FALSE
INVARIANTS NoTruncated NeverTruncated NoDangling RerunGives CleanFailures
PROPERTIES Completes
CHECK_DEADLOCK FALSE
