SPECIFICATION Spec
CONSTANTS
  N = 7
  Depth = 3
  Variant = "real"
INVARIANTS Everything Faithful OnePer
CHECK_DEADLOCK FALSE
