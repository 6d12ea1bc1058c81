INIT Init
NEXT Next
CONSTANTS MaxTraits = 1  MaxChamps = 1  MaxSets = 2  MaxTexts = 2  Keys = {"a", "B"}  Emit = FALSE
INVARIANTS TranslatedOnce Complete
CHECK_DEADLOCK FALSE
