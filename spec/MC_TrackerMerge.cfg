SPECIFICATION Spec
CONSTANTS
  Freqs = {1, 2}
  Mags = {0}
  MaxPeaks = 1
  MaxFrames = 8
  Cfgs <- MergeCfgs
INVARIANTS Conserved CapRespected PubClean Within0
PROPERTIES PubKept ForwardStable
CHECK_DEADLOCK FALSE
