SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 TrustTmp = TRUE
INVARIANTS Sound Intact
