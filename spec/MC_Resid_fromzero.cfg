SPECIFICATION Spec
CONSTANTS
  A = {1, 2}
  F = {0, 1}
  K = {0, 1}
  Len0 = 2
  Last = 1
  Variant = "fromzero"
INVARIANTS Truth Dual Told
CHECK_DEADLOCK FALSE
