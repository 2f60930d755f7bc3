SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  MaxRoots = 3
INVARIANT NoAccident
PROPERTY Untouched
CHECK_DEADLOCK FALSE
