SPECIFICATION Spec
CONSTANTS
  Gens = {1, 2}
  Seeds = {1, 2}
  MaxDraws = 6
  Variant = "ok"
INVARIANTS Reproducible Fresh Differ
CHECK_DEADLOCK FALSE
