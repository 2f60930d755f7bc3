SPECIFICATION Spec
CONSTANTS
  MaxSize = 4
  MaxLead = 3
  MaxLen = 4
  MaxStride = 5
  Variant = "norest"
INVARIANTS Aligned
CHECK_DEADLOCK FALSE
