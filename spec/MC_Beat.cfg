SPECIFICATION Spec
CONSTANTS
  Values = {1, 2}
  Variant = "ok"
INVARIANTS SamePartials InOrder Involutions Kept Allowed
CHECK_DEADLOCK FALSE
