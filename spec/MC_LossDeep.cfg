SPECIFICATION Spec
CONSTANTS
  N = 2
  Top = 3
  P = 1
  Variant = "spec"
INVARIANTS Defined Metric Lower
CHECK_DEADLOCK FALSE
