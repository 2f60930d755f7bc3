SPECIFICATION Spec
CONSTANTS
  Full = 1
  Len0 = 2
  Chans = {1, 2}
  Variant = "whole"
  Limit = 5
INVARIANTS Heard Faithful Silence Bounded Loud

CHECK_DEADLOCK FALSE
