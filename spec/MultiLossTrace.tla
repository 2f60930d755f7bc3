----------------------------- MODULE MultiLossTrace ----------------------------
(* History of one loss object with scales worth `worth` (in order), called     *)
(* with [how, factor, failing (positions), got, err, runs (of every scale,     *)
(* empty where it cannot be seen), undef (positions that are not a number:     *)
(* the total is -1, undefined), usable (a given pool still works)].         *)
EXTENDS Integers, Sequences, FiniteSets, Batch
VARIABLES tid, i
vars == <<tid, i>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ i = 0
RECURSIVE Sum(_, _)
Sum(w, n) == IF n = 0 THEN 0 ELSE w[n] + Sum(w, n - 1)
E == T.steps[i + 1]
Fails == {E.failing[j] : j \in 1..Len(E.failing)}
Bad ==
  (IF Fails # {}
   THEN (IF \E f \in Fails : E.err = "scale " \o ToString(f) THEN {}
         ELSE {"failing scale not reported: " \o E.err})
   ELSE IF E.err # "" THEN {"raised " \o E.err} ELSE
   IF E.undef # <<>>
   THEN (IF E.got = -1 THEN {} ELSE {E.how \o " gave " \o ToString(E.got)
           \o " where a scale is not a number"})
   ELSE IF E.got # E.factor * Sum(T.worth, Len(T.worth))
   THEN {E.how \o " gave " \o ToString(E.got) \o " not "
         \o ToString(E.factor * Sum(T.worth, Len(T.worth)))} ELSE {})
  \cup (IF Fails = {} /\ \E j \in 1..Len(E.runs) : E.runs[j] # 1
        THEN {"evaluations " \o ToString(E.runs)} ELSE {})
  \cup (IF ~E.usable THEN {"the given pool is no longer usable"} ELSE {})
Next == /\ i < Len(T.steps) /\ i' = i + 1 /\ UNCHANGED tid
        /\ LET b == Bad IN
           IF b # {} THEN Verdict(tid, FALSE, i + 1, Join(b))
           ELSE IF i + 1 = Len(T.steps) THEN Verdict(tid, TRUE, i + 1, "") ELSE TRUE
Spec == Init /\ [][Next]_vars
================================================================================
