SPECIFICATION Spec
CONSTANTS
  P = 37
  Root = 2
  Order = 36
  Sizes = {1, 2, 3, 4, 6}
  Vals = {0, 1, 2}
  MaxLen = 4
  Variant = "ok"
INVARIANTS Right Padded Symmetric Peak Zero Scaled Lines Bands
CHECK_DEADLOCK FALSE
