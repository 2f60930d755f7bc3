SPECIFICATION Spec
CONSTANTS
  Gens = {1, 2}
  Seeds = {1, 2}
  MaxDraws = 4
  Variant = "ok"
INVARIANTS Reproducible Fresh Differ
CHECK_DEADLOCK FALSE
