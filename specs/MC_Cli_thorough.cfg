SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
CONSTANTS MaxOps = 4
 Names = {"a.wad", "a.wad.client", "a", "h"}
 Big = FALSE
 Emit = FALSE
INVARIANTS TreeOk NoFileIsDir RefusedNothing InputsKept WrittenWhereTold LazyKeeps NotItself
PROPERTIES KnownGrow GotGrow
