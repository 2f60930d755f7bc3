SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2}
  Locked = FALSE
  Program <- MCProgram
INVARIANTS Atomic NothingLost NoError
CHECK_DEADLOCK FALSE
