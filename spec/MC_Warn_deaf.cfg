SPECIFICATION Spec
CONSTANTS
  MaxDepth = 2
  MaxCalls = 2
  Acts = {"ignore", "always", "error"}
  Cats = {"W", "R", "U"}
  Variant = "deaf"
INVARIANTS AsAsked Restored
CHECK_DEADLOCK FALSE
