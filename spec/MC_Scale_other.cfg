SPECIFICATION Spec
CONSTANTS
  Top = 4
  Turns = 1
  Variant = "other"
INVARIANTS Inverse Order
CHECK_DEADLOCK FALSE
