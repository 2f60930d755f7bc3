SPECIFICATION Spec
CONSTANTS
  MaxTracks = 2
INVARIANTS Same AllFinite Nothing Count
CHECK_DEADLOCK FALSE
