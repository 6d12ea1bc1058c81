INIT Init
NEXT Next
CONSTANTS MaxTraits = 2  MaxChamps = 2  MaxSets = 2  MaxTexts = 6  Keys = {"a", "B", "c"}  Emit = TRUE
INVARIANTS EmitCase
CHECK_DEADLOCK FALSE
