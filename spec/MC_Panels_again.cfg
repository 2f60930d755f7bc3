SPECIFICATION Spec
CONSTANTS
  N = 4
  Clicks = 3
  Variant = "again"
INVARIANTS Toggles
CHECK_DEADLOCK FALSE
