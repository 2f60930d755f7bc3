SPECIFICATION Spec
CONSTANTS Depth = 2
          Raw = FALSE
          NoOrder = FALSE
INVARIANTS Domain Agree Refines Stable
PROPERTY Reproduces
CHECK_DEADLOCK FALSE
CONSTRAINT Bounded
