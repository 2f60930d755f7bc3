------------------------------- MODULE MultiLoss -------------------------------
(* One evaluation of a loss over several scales, serially (Workers = 0) or in  *)
(* a pool: tasks are handed out, run on up to Workers workers, end in any      *)
(* order, may fail, and are gathered.  Scale k alone is worth 8^(k-1); one may  *)
(* be undefined (not a number).                                                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Scales, MaxWorkers, Variant
VARIABLES pc, workers, failing, undef, queue, running, ended, total, error, runs
vars == <<pc, workers, failing, undef, queue, running, ended, total, error, runs>>
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Worth(k) == Pow(8, k - 1)
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET k == CHOOSE q \in S : TRUE IN
          Worth(k) + Sum(S \ {k})
All == 1..Scales
Init == /\ workers \in 0..MaxWorkers /\ failing \in SUBSET All /\ undef \in 0..Scales
        /\ pc = "hand" /\ queue = {} /\ running = {} /\ ended = {}
        /\ total = 0 /\ error = 0 /\ runs = [k \in All |-> 0]
Hand == /\ pc = "hand"
        /\ queue' = (IF workers = 0 THEN {} ELSE All)
        /\ pc' = "gather" /\ UNCHANGED <<workers, failing, undef, running, ended, total, error, runs>>
Start == /\ workers > 0 /\ Cardinality(running) < workers
         /\ \E k \in queue : /\ queue' = queue \ {k}
                             /\ running' = running \cup {k}
                             /\ runs' = [runs EXCEPT ![k] = @ + 1]
         /\ UNCHANGED <<pc, workers, failing, undef, ended, total, error>>
End == /\ \E k \in running : running' = running \ {k} /\ ended' = ended \cup {k}
       /\ UNCHANGED <<pc, workers, failing, undef, queue, total, error, runs>>
\* the next scale to gather is the number gathered so far plus one
VARIABLE next
Take ==
  /\ pc = "gather" /\ next <= Scales
  /\ IF workers = 0
     THEN /\ runs' = [runs EXCEPT ![next] = @ + 1]
     ELSE /\ (next \in ended \/ Variant = "impatient")
          /\ UNCHANGED runs
  /\ IF next \in failing /\ Variant # "swallow"
     THEN error' = next /\ pc' = "failed" /\ UNCHANGED <<total, next>>
     ELSE /\ total' = IF next = undef /\ Variant # "skip" THEN -1 ELSE
                      IF total = -1 THEN -1 ELSE total + (IF next \in failing \/ next = undef \/
                                  (workers > 0 /\ next \notin ended)
                               THEN 0 ELSE Worth(next))
          /\ next' = next + 1 /\ UNCHANGED <<error, pc>>
  /\ UNCHANGED <<workers, failing, undef, queue, running, ended>>
Return == pc = "gather" /\ next > Scales /\ pc' = "done"
          /\ UNCHANGED <<workers, failing, undef, queue, running, ended, total, error, runs, next>>
Init2 == Init /\ next = 1
Next == \/ (Hand /\ UNCHANGED next) \/ (Start /\ UNCHANGED next)
        \/ (End /\ UNCHANGED next) \/ Take \/ Return
Spec == Init2 /\ [][Next]_<<vars, next>> /\ WF_<<vars, next>>(Next)
SameEverywhere == pc = "done" => total = (IF undef = 0 THEN Sum(All) ELSE -1) /\ failing = {}
Once == /\ \A k \in All : runs[k] <= 1
        /\ pc = "done" => \A k \in All : runs[k] = 1
ErrorReaches == pc = "failed" => error \in failing
Answers == <>(pc \in {"done", "failed"})
================================================================================
