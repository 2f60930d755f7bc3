SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Names = {"a", "b", "c", "d"}
 MaxRules = 3
 InnermostFirst = FALSE
 KeepOld = TRUE
INVARIANTS Renamed Warned Quiet
