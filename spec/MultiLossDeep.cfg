SPECIFICATION Spec
CONSTANTS
  Scales = 6
  MaxWorkers = 4
  Variant = "ok"
INVARIANTS SameEverywhere Once ErrorReaches
PROPERTIES Answers
CHECK_DEADLOCK FALSE
