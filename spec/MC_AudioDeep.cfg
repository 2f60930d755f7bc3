SPECIFICATION Spec
CONSTANTS
  Full = 1
  Len0 = 2
  Chans = {1, 2}
  Variant = "ok"
  Limit = 6
INVARIANTS Heard Faithful Silence Bounded Loud
PROPERTIES RoundTrip Untouched
CHECK_DEADLOCK FALSE
