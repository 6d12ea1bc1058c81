SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Nums = {0, 2, 9, 10, 11}
 MaxLen = 2
INVARIANTS Numeric Trichotomy Transitive TextInjective
