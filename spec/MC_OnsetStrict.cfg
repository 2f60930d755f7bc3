SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Values = {0, 1, 3}
INVARIANTS DefStrict
CHECK_DEADLOCK FALSE
