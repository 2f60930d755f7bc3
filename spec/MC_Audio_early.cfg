SPECIFICATION Spec
CONSTANTS
  Full = 1
  Len0 = 2
  Chans = {1, 2}
  Variant = "early"
  Limit = 5
INVARIANTS Faithful

CHECK_DEADLOCK FALSE
