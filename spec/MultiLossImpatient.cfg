SPECIFICATION Spec
CONSTANTS
  Scales = 3
  MaxWorkers = 2
  Variant = "impatient"
INVARIANTS SameEverywhere
CHECK_DEADLOCK FALSE
