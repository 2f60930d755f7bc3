SPECIFICATION Spec
CONSTANTS
  Params <- MCParams
  Sounds = {1, 2, 3}
  MaxFits = 3
  FramesOf <- MCFrames
  TracksOf <- MCTracks
INVARIANTS JustFitted HistoryFree NoLeftover
CHECK_DEADLOCK FALSE
