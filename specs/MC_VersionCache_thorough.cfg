INIT Init
NEXT Next
CONSTANTS Lines = {"live"}  Rels = {1, 2}  Elems = {"client", "game"}  Pool = "small"  MaxLines = 1  MaxOps = 0  Emit = FALSE
INVARIANTS Right Stable Unmixed FirstOnly NoRefetch
CHECK_DEADLOCK FALSE
