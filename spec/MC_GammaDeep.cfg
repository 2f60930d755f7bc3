SPECIFICATION Spec
CONSTANTS
  Gs = {1, 2}
  Ns = {1, 2, 3, 5}
  Widths = {10, 20, 40}
  Delays = {0, 500, 7000}
  Steps = 5
  Variant = "ok"
INVARIANTS PeakTime Centred Assigned Coherent Given Faster Longer Banks
CHECK_DEADLOCK FALSE
