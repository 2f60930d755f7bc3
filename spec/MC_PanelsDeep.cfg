SPECIFICATION Spec
CONSTANTS
  N = 6
  Clicks = 3
  Variant = "once"
INVARIANTS Toggles
CHECK_DEADLOCK FALSE
