SPECIFICATION Spec
CONSTANTS
  A = {0, 1, 2, 3}
  F = {0, 1, 2, 5}
  K = {0, 1}
  Len0 = 3
  Last = 2
  Variant = "spec"
INVARIANTS Truth Dual Told
CHECK_DEADLOCK FALSE
