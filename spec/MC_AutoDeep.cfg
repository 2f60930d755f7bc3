SPECIFICATION Spec
CONSTANTS
  P = 73
  Root = 5
  Order = 72
  Sizes = {1, 2, 3, 4, 6, 8, 9}
  Vals = {0, 1, 2}
  MaxLen = 6
  Variant = "ok"
INVARIANTS Right Padded Symmetric Peak Zero Scaled Lines Bands
CHECK_DEADLOCK FALSE
