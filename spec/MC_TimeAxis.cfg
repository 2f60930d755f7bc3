SPECIFICATION Spec
CONSTANTS
  MaxFrames = 6
INVARIANTS AxisIsClock Inside OneTimePerPoint
CHECK_DEADLOCK FALSE
