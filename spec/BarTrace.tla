------------------------------- MODULE BarTrace -------------------------------
(* What the progress bar of the GUI shows during one fit: draws <<v, max>>.     *)
(* Updates between draws may be skipped.  A trace has frames, tracks, whole.    *)
EXTENDS Batch
VARIABLES tid, l, ph, cur      \* ph 0 before, 1 frames, 2 between, 3 tracks, 4 after
vars == <<tid, l, ph, cur>>
Tr == Traces[tid]
Total(p) == IF p = 1 THEN Tr.frames ELSE Tr.tracks
Init == tid \in 1..Len(Traces) /\ l = 1 /\ ph = 0 /\ cur = 0
D == Tr.draws[l]
Begin == ph \in {0, 2} /\ D[1] = 0 /\ D[2] = Total(ph + 1)
         /\ ph' = ph + 1 /\ cur' = 0
Update == ph \in {1, 3} /\ D[2] = Total(ph) /\ D[1] >= cur /\ D[1] <= D[2]
          /\ ph' = ph /\ cur' = D[1]
Full == ph \in {1, 3} /\ D[1] = D[2] /\ D[1] > 0 /\ ph' = ph + 1 /\ cur' = D[1]
Over == ~Tr.whole \/ ph = 4
Next ==
  /\ UNCHANGED tid
  /\ \/ l <= Len(Tr.draws) /\ (Begin \/ Update \/ Full) /\ l' = l + 1
     \/ /\ l <= Len(Tr.draws) /\ ~ENABLED (Begin \/ Update \/ Full)
        /\ Verdict(tid, FALSE, l, "draws " \o ToString(D[1]) \o " of "
                   \o ToString(D[2]) \o " in phase " \o ToString(ph) \o " at "
                   \o ToString(cur))
        /\ l' = 999999 /\ UNCHANGED <<ph, cur>>
     \/ /\ l = Len(Tr.draws) + 1
        /\ Verdict(tid, Over, l, "phases missing at the end")
        /\ l' = 999999 /\ UNCHANGED <<ph, cur>>
Spec == Init /\ [][Next]_vars
===============================================================================
