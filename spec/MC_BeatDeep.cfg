SPECIFICATION Spec
CONSTANTS
  Values = {0, 1, 2}
  Variant = "ok"
INVARIANTS SamePartials InOrder Involutions Kept Allowed
CHECK_DEADLOCK FALSE
