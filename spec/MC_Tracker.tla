----------------------------- MODULE MC_Tracker -----------------------------
EXTENDS Tracker
Base == [kind |-> "open", cap |-> 2, off |-> 2, sn |-> 0, sd |-> 1,
         durn |-> 1, durd |-> 1, fs |-> 2, h |-> 1,
         haslo |-> FALSE, lo |-> 0, hashi |-> FALSE, hi |-> 0, th |-> 0,
         rev |-> FALSE, hasstrip |-> FALSE, stripn |-> 0, stripd |-> 1,
         merge |-> "none"]
Modal == [Base EXCEPT !.kind = "modal", !.merge = "average", !.durn = 1,
                      !.durd = 2, !.fs = 2]
MCCfgs == { Base, [Base EXCEPT !.off = 0, !.sn = 1], [Base EXCEPT !.merge = "single"],
            Modal, [Modal EXCEPT !.rev = TRUE, !.hasstrip = TRUE, !.stripn = 1,
                             !.merge = "single", !.th = 1],
            [Modal EXCEPT !.haslo = TRUE, !.lo = 2, !.hasstrip = TRUE,
                          !.stripn = 1, !.fs = 1, !.durn = 0] }
MergeCfgs == { [Modal EXCEPT !.off = 2],
               [Modal EXCEPT !.off = 2, !.merge = "single"],
               [Modal EXCEPT !.off = 2, !.rev = TRUE, !.hasstrip = TRUE,
                             !.stripn = 1] }
======================================================================
