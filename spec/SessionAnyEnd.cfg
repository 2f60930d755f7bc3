SPECIFICATION Spec
CONSTANTS Sessions = {1, 2, 3}
          Starts = 5
          AnyEnd = TRUE
          Keep = FALSE
          Early = FALSE
INVARIANT Consumed
PROPERTIES Restores OnlyIfWanted
CHECK_DEADLOCK FALSE
