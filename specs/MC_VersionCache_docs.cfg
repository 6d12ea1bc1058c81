INIT Init
NEXT Next
CONSTANTS Lines = {"live"}  Rels = {1}  Elems = {"client"}  Pool = "small"  MaxLines = 3  MaxOps = 1  Emit = FALSE
INVARIANTS Right Stable Unmixed FirstOnly
CHECK_DEADLOCK FALSE
