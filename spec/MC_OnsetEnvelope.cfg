SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Values = {0, 1, 3}
INVARIANTS DefEnvelope
CHECK_DEADLOCK FALSE
