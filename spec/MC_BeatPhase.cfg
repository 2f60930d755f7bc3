SPECIFICATION Spec
CONSTANTS
  Values = {1, 2}
  Variant = "nophase"
INVARIANTS SamePartials
CHECK_DEADLOCK FALSE
