SPECIFICATION Spec
CONSTANTS
  N = 6
  Partials = 3
  Variant = "ok"
INVARIANTS InOrder Together Spaced Everything TrueTime
CHECK_DEADLOCK FALSE
