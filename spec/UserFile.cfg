SPECIFICATION Spec
CONSTANTS Values = {1, 2, 3}
          N = 4
          InPlace = FALSE
          Forget = FALSE
          MaxSaves = 4
INVARIANTS AllOrNothing Whole Reported Failed
CHECK_DEADLOCK FALSE
