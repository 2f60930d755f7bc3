SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Values = {0, 1, 3}
INVARIANTS DefCurrent
CHECK_DEADLOCK FALSE
