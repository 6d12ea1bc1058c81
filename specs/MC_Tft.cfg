INIT Init
NEXT Next
CONSTANTS MaxTraits = 1  MaxChamps = 1  MaxSets = 1  MaxTexts = 1  Keys = {"a", "B"}  Emit = FALSE
INVARIANTS TranslatedOnce Complete
CHECK_DEADLOCK FALSE
