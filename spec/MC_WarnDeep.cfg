SPECIFICATION Spec
CONSTANTS
  MaxDepth = 4
  MaxCalls = 4
  Acts = {"ignore", "always", "error"}
  Cats = {"W", "R", "U"}
  Variant = "right"
INVARIANTS AsAsked Restored
CHECK_DEADLOCK FALSE
