SPECIFICATION Spec
CONSTANTS
  N = 5
  Depth = 3
  Variant = "real"
INVARIANTS Everything Faithful OnePer
CHECK_DEADLOCK FALSE
