SPECIFICATION Spec
CONSTANTS
  Amps = {0, 1, 2}
  Freqs = {0, 1, 2, 3}
  Falls = {0, 1}
  Starts = {0, 1, 2, 3}
  Steps = 2
  Variant = "zero"
INVARIANTS PhaseOfSum Modulus Rate Commutes Single
CHECK_DEADLOCK FALSE
