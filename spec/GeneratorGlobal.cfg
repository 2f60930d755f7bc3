SPECIFICATION Spec
CONSTANTS
  Gens = {1, 2}
  Seeds = {1, 2}
  MaxDraws = 3
  Variant = "global"
INVARIANTS Reproducible
CHECK_DEADLOCK FALSE
