SPECIFICATION Spec
CONSTANTS
  Steps = 3
  Variant = "short"
INVARIANTS Found
CHECK_DEADLOCK FALSE
