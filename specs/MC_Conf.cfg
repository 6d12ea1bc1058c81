INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Emit = FALSE
INVARIANTS SameByFileOrDir OptionOnlyChangesPatchline Sane
