CONSTANTS
  Sounds = {1, 2}
  MaxRuns = 3
  LateAudio = FALSE
  LateRate = FALSE
  KeepOld = FALSE
  HalfDone = FALSE
  NoLock = FALSE
  LoseLock = TRUE
SPECIFICATION Spec
INVARIANTS TypeOK OneAtATime LastHeard CanHear CanAnalyse
CHECK_DEADLOCK FALSE
