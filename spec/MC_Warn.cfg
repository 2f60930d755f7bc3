SPECIFICATION Spec
CONSTANTS
  MaxDepth = 3
  MaxCalls = 3
  Acts = {"ignore", "always", "error"}
  Cats = {"W", "R", "U"}
  Variant = "right"
INVARIANTS AsAsked Restored
CHECK_DEADLOCK FALSE
