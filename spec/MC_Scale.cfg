SPECIFICATION Spec
CONSTANTS
  Top = 8
  Turns = 2
  Variant = "spec"
INVARIANTS Inverse Order
CHECK_DEADLOCK FALSE
