SPECIFICATION Spec
CONSTANTS
  Frames = 4
  Levels = {0, 2, 3, 5, 9}
  Freqs = {3, 4}
  Beats = {0, 2}
  Const = 4
  Slowest = 5
  Variant = "ok"
INVARIANTS HingeFeasible Inside NoWorse FreqFeasible DecayFeasible AmpFeasible
CHECK_DEADLOCK FALSE
