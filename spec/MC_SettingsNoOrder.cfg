SPECIFICATION Spec
CONSTANTS Depth = 2
          Raw = FALSE
          NoOrder = TRUE
INVARIANTS Domain Agree Stable
PROPERTY Reproduces
CHECK_DEADLOCK FALSE
CONSTRAINT Bounded
