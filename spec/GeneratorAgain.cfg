SPECIFICATION Spec
CONSTANTS
  Gens = {1, 2}
  Seeds = {1, 2}
  MaxDraws = 3
  Variant = "again"
INVARIANTS Fresh
CHECK_DEADLOCK FALSE
