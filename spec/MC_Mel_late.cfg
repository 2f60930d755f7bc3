SPECIFICATION Spec
CONSTANTS
  Top = 7
  Corners = 5
  Widths = {1, 2, 4}
  L = 420
  Variant = "late"
INVARIANTS SameAsTriangles Partition AtMostTwo Peak Support Half Rising
CHECK_DEADLOCK FALSE
