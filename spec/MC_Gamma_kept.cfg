SPECIFICATION Spec
CONSTANTS
  Gs = {1, 2}
  Ns = {1, 2, 4}
  Widths = {10, 40}
  Delays = {0, 500, 7000}
  Steps = 2
  Variant = "kept"
INVARIANTS PeakTime Centred Assigned Coherent Given Faster Longer Banks
CHECK_DEADLOCK FALSE
