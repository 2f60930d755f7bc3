SPECIFICATION Spec
CONSTANTS
  Steps = 3
  Variant = "noswap"
INVARIANTS Found
CHECK_DEADLOCK FALSE
