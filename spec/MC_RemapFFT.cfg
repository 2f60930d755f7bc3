CONSTANTS HopFromFFT = TRUE
INIT Init
NEXT Next
INVARIANTS HopInWindow WindowInFFT Explicit Kept
CHECK_DEADLOCK FALSE
