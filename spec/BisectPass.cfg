SPECIFICATION Spec
CONSTANTS
  Steps = 3
  Variant = "pass"
INVARIANTS Exact
CHECK_DEADLOCK FALSE
