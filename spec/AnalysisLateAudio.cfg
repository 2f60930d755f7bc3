CONSTANTS
  Sounds = {1, 2}
  MaxRuns = 3
  LateAudio = TRUE
  LateRate = FALSE
  KeepOld = FALSE
  HalfDone = FALSE
  NoLock = FALSE
  LoseLock = FALSE
SPECIFICATION Spec
INVARIANTS TypeOK OneAtATime LastHeard CanHear CanAnalyse
CHECK_DEADLOCK FALSE
