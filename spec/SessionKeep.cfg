SPECIFICATION Spec
CONSTANTS Sessions = {1, 2, 3}
          Starts = 5
          AnyEnd = FALSE
          Keep = TRUE
          Early = FALSE
INVARIANT Consumed
PROPERTIES Restores OnlyIfWanted
CHECK_DEADLOCK FALSE
