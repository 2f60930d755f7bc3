SPECIFICATION Spec
CONSTANTS
  N = 4
  Clicks = 3
  Variant = "once"
INVARIANTS Toggles
CHECK_DEADLOCK FALSE
