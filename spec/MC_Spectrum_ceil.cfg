SPECIFICATION Spec
CONSTANTS
  P = 17
  G = 2
  N = 8
  Hops = {1, 3}
  Frames = 1
  Variant = "ceil"
INVARIANTS Measured Real
CHECK_DEADLOCK FALSE
