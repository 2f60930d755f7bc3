SPECIFICATION Spec
CONSTANTS
  N = 5
  Partials = 2
  Variant = "each"
INVARIANTS InOrder Together Spaced Everything TrueTime
CHECK_DEADLOCK FALSE
