SPECIFICATION Spec
CONSTANTS
  Scales = 4
  MaxWorkers = 3
  Variant = "ok"
INVARIANTS SameEverywhere Once ErrorReaches
PROPERTIES Answers
CHECK_DEADLOCK FALSE
