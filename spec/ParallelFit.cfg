SPECIFICATION Spec
CONSTANTS
  MaxFrames = 2
  MaxTracks = 4
INVARIANTS SameAsSerial ErrorReported OwnStorage Never NotBeyond NotAhead Complete
PROPERTIES Forward Ends
CHECK_DEADLOCK FALSE
