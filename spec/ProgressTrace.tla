---------------------------- MODULE ProgressTrace ----------------------------
(* Progress reported by one real fit.  A trace has frames and tracks (numbers   *)
(* of items), whole (the fit succeeded and everything is seen), and events      *)
(* [op, max, v, f, t]: op "start" (total max, value v), "update" (to v, or one  *)
(* step if v = -1), "stop"; f and t are the frames and tracks processed so far  *)
(* (-1 not known).                                                             *)
EXTENDS Batch
VARIABLES tid, l, cur, max, phase, open
vars == <<tid, l, cur, max, phase, open>>
Tr == Traces[tid]
Ev == Tr.events[l]
Total(p) == IF p = 1 THEN Tr.frames ELSE Tr.tracks
Init == tid \in 1..Len(Traces) /\ l = 1 /\ cur = 0 /\ max = 0 /\ phase = 0
        /\ open = FALSE
New == IF Ev.op = "update" THEN (IF Ev.v = -1 THEN cur + 1 ELSE Ev.v) ELSE cur
DoneSoFar == IF phase = 1 THEN Ev.f ELSE Ev.t
Why ==
  CASE Ev.op = "start" ->
         IF open THEN "a phase starts before the other one stops"
         ELSE IF phase >= 2 THEN "more than two phases"
         ELSE IF Ev.max # Total(phase + 1)
         THEN "total " \o ToString(Ev.max) \o " instead of "
                \o ToString(Total(phase + 1))
         ELSE IF Ev.v # 0 THEN "does not start from zero" ELSE ""
    [] Ev.op = "update" ->
         IF ~open THEN "update outside of a phase"
         ELSE IF New < cur THEN "moves backwards"
         ELSE IF New > max THEN "exceeds the total (" \o ToString(New) \o " of "
                                \o ToString(max) \o ")"
         ELSE IF DoneSoFar # -1 /\ New > DoneSoFar
         THEN "reports " \o ToString(New) \o " items, processed "
                \o ToString(DoneSoFar)
         ELSE ""
    [] Ev.op = "stop" ->
         IF ~open THEN "stops outside of a phase"
         ELSE IF cur # max THEN "stops at " \o ToString(cur) \o " of "
                                \o ToString(max)
         ELSE ""
    [] OTHER -> "fit failed with " \o Tr.err
Next ==
  /\ l <= Len(Tr.events) + 1 /\ UNCHANGED tid
  /\ IF l = Len(Tr.events) + 1
     THEN LET ok == ~Tr.whole \/ (phase = 2 /\ ~open) IN
          /\ Verdict(tid, ok, l, "a phase is missing")
          /\ l' = l + 1 /\ UNCHANGED <<cur, max, phase, open>>
     ELSE IF Why # ""
     THEN Verdict(tid, FALSE, l, Why) /\ l' = 999999
          /\ UNCHANGED <<cur, max, phase, open>>
     ELSE /\ l' = l + 1
          /\ cur' = IF Ev.op = "start" THEN Ev.v ELSE New
          /\ max' = IF Ev.op = "start" THEN Ev.max ELSE max
          /\ phase' = IF Ev.op = "start" THEN phase + 1 ELSE phase
          /\ open' = CASE Ev.op = "start" -> TRUE [] Ev.op = "stop" -> FALSE
                       [] OTHER -> open
Spec == Init /\ [][Next]_vars
==============================================================================
