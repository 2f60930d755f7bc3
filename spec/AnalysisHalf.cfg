CONSTANTS
  Sounds = {1, 2}
  MaxRuns = 3
  LateAudio = FALSE
  LateRate = FALSE
  KeepOld = FALSE
  HalfDone = TRUE
  NoLock = FALSE
  LoseLock = FALSE
SPECIFICATION Spec
INVARIANTS TypeOK OneAtATime LastHeard CanHear CanAnalyse
CHECK_DEADLOCK FALSE
