SPECIFICATION Spec
CONSTANTS
  MaxSize = 4
  MaxLead = 3
  MaxLen = 4
  MaxStride = 5
  Variant = "ok"
INVARIANTS Aligned InPad Fits
CHECK_DEADLOCK FALSE
