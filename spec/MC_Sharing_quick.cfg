SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  MaxRoots = 3
INVARIANT NoAccident
PROPERTY Untouched
CHECK_DEADLOCK FALSE
