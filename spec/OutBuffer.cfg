SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 TrustTmp = FALSE
INVARIANTS Sound Intact
