SPECIFICATION Spec
CONSTANTS MaxN = 6
          Drift = TRUE
          Stale = FALSE
          Old = FALSE
INVARIANT Region
PROPERTIES OneSide Nearer Inert
CHECK_DEADLOCK FALSE
