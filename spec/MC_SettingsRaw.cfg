SPECIFICATION Spec
CONSTANTS Depth = 2
          Raw = TRUE
          NoOrder = FALSE
INVARIANTS Domain Agree Stable
PROPERTY Reproduces
CHECK_DEADLOCK FALSE
CONSTRAINT Bounded
