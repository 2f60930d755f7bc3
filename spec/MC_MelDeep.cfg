SPECIFICATION Spec
CONSTANTS
  Top = 8
  Corners = 6
  Widths = {2, 4}
  L = 840
  Variant = "ok"
INVARIANTS SameAsTriangles Partition AtMostTwo Peak Support Half Rising
CHECK_DEADLOCK FALSE
