INIT Init
NEXT Next
CONSTANTS Lines = {"live", "pbe"}  Rels = {1, 2}  Elems = {"client", "game"}  Pool = "large"  MaxLines = 2  MaxOps = 10  Emit = TRUE
INVARIANTS EmitHist
CHECK_DEADLOCK FALSE
