CONSTANTS
  Points = {1, 2, 3}
  Values = {0, 1}
  MaxCalls = 3
  MaxRuns = 2
  OnGiven = FALSE
  LastPoint = FALSE
  Again = FALSE
  CountKnown = FALSE
  StageOff = FALSE
SPECIFICATION Spec
INVARIANTS Untouched Copies BestReturned Continues
CHECK_DEADLOCK FALSE
