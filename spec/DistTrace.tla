------------------------------- MODULE DistTrace -------------------------------
(* Distances between integer vectors: [x, y, p, got (d^p as an integer)].      *)
EXTENDS Integers, Sequences, Batch
VARIABLES tid, done
vars == <<tid, done>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ done = FALSE
Abs(z) == IF z < 0 THEN -z ELSE z
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
RECURSIVE Sum(_)
Sum(n) == IF n = 0 THEN 0 ELSE Pow(Abs(T.x[n] - T.y[n]), T.p) + Sum(n - 1)
Bad == IF T.err # "" THEN {"raised " \o T.err} ELSE
       IF T.got # Sum(Len(T.x)) THEN {"distance^p " \o ToString(T.got) \o " not "
                                      \o ToString(Sum(Len(T.x)))} ELSE {}
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ LET b == Bad IN Verdict(tid, b = {}, 1, Join(b))
Spec == Init /\ [][Next]_vars
================================================================================
