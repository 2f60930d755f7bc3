SPECIFICATION Spec
CONSTANTS
  Scales = 3
  MaxWorkers = 2
  Variant = "skip"
INVARIANTS SameEverywhere
CHECK_DEADLOCK FALSE
