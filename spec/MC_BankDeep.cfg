SPECIFICATION Spec
CONSTANTS
  MaxSize = 6
  MaxLead = 5
  MaxLen = 6
  MaxStride = 8
  Variant = "ok"
INVARIANTS Aligned InPad Fits
CHECK_DEADLOCK FALSE
