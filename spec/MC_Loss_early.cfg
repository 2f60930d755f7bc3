SPECIFICATION Spec
CONSTANTS
  N = 2
  Top = 2
  P = 1
  Variant = "early"
INVARIANTS Defined Metric Lower
CHECK_DEADLOCK FALSE
