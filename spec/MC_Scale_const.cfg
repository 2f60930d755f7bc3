SPECIFICATION Spec
CONSTANTS
  Top = 4
  Turns = 1
  Variant = "const"
INVARIANTS Inverse Order
CHECK_DEADLOCK FALSE
