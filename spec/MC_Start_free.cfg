SPECIFICATION Spec
CONSTANTS
  Frames = 3
  Levels = {0, 2, 3, 5}
  Freqs = {3, 4, 6}
  Beats = {0, 2}
  Const = 4
  Slowest = 5
  Variant = "free"
INVARIANTS HingeFeasible Inside NoWorse FreqFeasible DecayFeasible AmpFeasible
CHECK_DEADLOCK FALSE
