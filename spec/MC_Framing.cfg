SPECIFICATION Spec
CONSTANTS
  MaxN = 9
  MaxW = 5
  MaxHop = 6
INVARIANTS Prefix Complete InSignal Covered PadCentre PadReaches
CHECK_DEADLOCK FALSE
