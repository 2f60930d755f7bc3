SPECIFICATION Spec
CONSTANTS
  MaxModes = 3
INVARIANTS Exists Best Opposite Limits
CHECK_DEADLOCK FALSE
