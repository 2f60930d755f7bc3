SPECIFICATION Spec
CONSTANTS
  MaxSize = 4
  MaxLead = 3
  MaxLen = 4
  MaxStride = 5
  Variant = "tail"
INVARIANTS Aligned
CHECK_DEADLOCK FALSE
