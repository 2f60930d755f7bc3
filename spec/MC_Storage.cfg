SPECIFICATION Spec
CONSTANTS
  Keys = {"a", "b"}
  MaxIdx = 2
  MaxOps = 4
PROPERTIES Places Forgets
CHECK_DEADLOCK FALSE
