---------------------------- MODULE ConserveTrace ----------------------------
(* Traces of the real tracker against the conservation clauses alone.         *)
EXTENDS Conserve, Batch
VARIABLES tid, l
vars == <<tid, l>>
Tr == Traces[tid]
Ev == Tr.events[l]
c == Tr.cfg
Hist(k) == [i \in 1..k |-> Tr.events[i].peaks]
Init == tid \in 1..Len(Traces) /\ l = 1
\* "fit" traces observe only the tracks left at the end of an analysis, of
\* which only clean ones are published: nothing to say about dropped peaks
FitClauses(hist, post, npost) ==
  {x \in Clauses(c, hist, {}, post, npost, 0) :
     x \notin {"a peak was dropped below the maximum",
               "active tracks are not those continued in this frame"}}
Step ==
  /\ l <= Len(Tr.events)
  /\ LET last == l = Len(Tr.events)
         bad ==
           IF Ev.err # "" THEN {"raised " \o Ev.err}
           ELSE IF Tr.cfg.obs = "final"
                THEN IF last THEN FitClauses(Hist(l), Ran(Ev.tracks), Len(Ev.tracks))
                     ELSE {}
           ELSE Clauses(c, Hist(l),
                        IF l = 1 THEN {} ELSE Ran(Tr.events[l-1].tracks),
                        Ran(Ev.tracks), Len(Ev.tracks), Ev.nact)
     IN IF bad # {} THEN Verdict(tid, FALSE, l, Join(bad)) /\ l' = 999999
        ELSE l' = l + 1 /\ (last => Verdict(tid, TRUE, l, ""))
  /\ UNCHANGED tid
Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
