INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS MaxOps = 8
 Names = {"a.wad", "a.wad.client", "a", "h", "a.skn", "b.bin", ".wad", "b.x.wad"}
 Big = TRUE
 Emit = TRUE
INVARIANTS EmitOps
