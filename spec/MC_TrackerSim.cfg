SPECIFICATION SimSpec
CONSTANTS
  Freqs = {1, 2, 3, 5, 8}
  Mags = {0, 1, 2}
  MaxPeaks = 2
  MaxFrames = 7
  Cfgs <- MCCfgs
INVARIANTS CapRespected Emit
CHECK_DEADLOCK FALSE
