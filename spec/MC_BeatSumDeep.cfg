SPECIFICATION Spec
CONSTANTS
  Amps = {0, 1, 2, 3}
  Freqs = {0, 1, 2, 3, 5}
  Falls = {0, 1}
  Starts = {0, 1, 2, 3}
  Steps = 3
  Variant = "ok"
INVARIANTS PhaseOfSum Modulus Rate Commutes Single
CHECK_DEADLOCK FALSE
