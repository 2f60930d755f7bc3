SPECIFICATION Spec
CONSTANTS
  N = 4
  Depth = 3
  Variant = "last"
INVARIANTS Everything Faithful OnePer
CHECK_DEADLOCK FALSE
