SPECIFICATION Spec
CONSTANTS
  A = {0, 1, 2}
  F = {0, 1, 3}
  K = {0, 1}
  Len0 = 2
  Last = 1
  Variant = "spec"
INVARIANTS Truth Dual Told
CHECK_DEADLOCK FALSE
