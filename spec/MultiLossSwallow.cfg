SPECIFICATION Spec
CONSTANTS
  Scales = 3
  MaxWorkers = 2
  Variant = "swallow"
INVARIANTS SameEverywhere
CHECK_DEADLOCK FALSE
