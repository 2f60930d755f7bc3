SPECIFICATION Spec
CONSTANTS Sessions = {1, 2, 3}
          Starts = 5
          AnyEnd = FALSE
          Keep = FALSE
          Early = TRUE
INVARIANT Consumed
PROPERTIES Restores OnlyIfWanted
CHECK_DEADLOCK FALSE
