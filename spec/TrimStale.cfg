SPECIFICATION Spec
CONSTANTS MaxN = 6
          Drift = FALSE
          Stale = TRUE
          Old = FALSE
INVARIANT Region
PROPERTIES OneSide Nearer Inert
CHECK_DEADLOCK FALSE
