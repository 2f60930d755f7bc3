SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Names = {"a", "b", "c", "d"}
 MaxRules = 3
 InnermostFirst = TRUE
 KeepOld = FALSE
INVARIANTS Renamed Warned Quiet
