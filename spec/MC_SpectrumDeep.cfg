SPECIFICATION Spec
CONSTANTS
  P = 17
  G = 2
  N = 8
  Hops = {1, 2, 3, 5}
  Frames = 4
  Variant = "middle"
INVARIANTS Measured Real
CHECK_DEADLOCK FALSE
