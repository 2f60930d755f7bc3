SPECIFICATION Spec
CONSTANTS
  Steps = 9
  Variant = "ok"
INVARIANTS Bracket Halves Inside Bounded Refused Found Exact
PROPERTIES Ends
CHECK_DEADLOCK FALSE
