SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2, 3}
  Locked = TRUE
  Program <- MCProgram
INVARIANTS Atomic NothingLost NoError
CHECK_DEADLOCK FALSE
