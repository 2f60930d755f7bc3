---------------------------- MODULE MC_FitHistory ----------------------------
EXTENDS FitHistory
MCParams == {[save |-> TRUE, t |-> 1], [save |-> FALSE, t |-> 1],
             [save |-> TRUE, t |-> 2]}
MCFrames(s) == CASE s = 1 -> 3 [] s = 2 -> 1 [] s = 3 -> 0
MCTracks(s) == CASE s = 1 -> 2 [] s = 2 -> 1 [] s = 3 -> 0
==============================================================================
