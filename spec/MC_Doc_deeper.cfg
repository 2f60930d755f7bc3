SPECIFICATION Spec
CONSTANTS
  N = 4
  Depth = 3
  Variant = "deeper"
INVARIANTS Everything Faithful OnePer
CHECK_DEADLOCK FALSE
