SPECIFICATION Spec
CONSTANTS Depth = 3
          Raw = FALSE
          NoOrder = FALSE
INVARIANTS Domain Agree Refines Stable
PROPERTY Reproduces
CHECK_DEADLOCK FALSE
CONSTRAINT Bounded
