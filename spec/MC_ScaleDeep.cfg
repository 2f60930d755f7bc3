SPECIFICATION Spec
CONSTANTS
  Top = 30
  Turns = 3
  Variant = "spec"
INVARIANTS Inverse Order
CHECK_DEADLOCK FALSE
