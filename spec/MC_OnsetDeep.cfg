SPECIFICATION Spec
CONSTANTS
  MaxLen = 7
  Values = {0, 1, 3}
INVARIANTS Exact Decided OnlyMaxima Apart Inside Higher Shifted Scaled Wider Rising Constant Placed
CHECK_DEADLOCK FALSE
