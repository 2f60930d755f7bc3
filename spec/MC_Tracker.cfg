SPECIFICATION Spec
CONSTANTS
  Freqs = {1, 2, 4}
  Mags = {0, 1}
  MaxPeaks = 2
  MaxFrames = 4
  Cfgs <- MCCfgs
INVARIANTS Conserved CapRespected PubClean Within0
PROPERTIES PubKept ForwardStable
CHECK_DEADLOCK FALSE
