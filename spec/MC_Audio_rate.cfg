SPECIFICATION Spec
CONSTANTS
  Full = 1
  Len0 = 1
  Chans = {1}
  Variant = "rate"
  Limit = 5
INVARIANTS Heard Faithful Silence Bounded Loud

CHECK_DEADLOCK FALSE
