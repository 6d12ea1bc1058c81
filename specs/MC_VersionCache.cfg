INIT Init
NEXT Next
CONSTANTS Lines = {"live", "pbe"}  Rels = {1}  Elems = {"client", "game"}  Pool = "small"  MaxLines = 1  MaxOps = 0  Emit = FALSE
INVARIANTS Right Stable Unmixed FirstOnly NoRefetch
CHECK_DEADLOCK FALSE
