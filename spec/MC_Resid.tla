-------------------------------- MODULE MC_Resid -------------------------------
(* A track of the sum of two partials, sampled every quarter second from n0 on, *)
(* is compared to an estimate: the truth, that with frequencies and phases      *)
(* exchanged, or any other. Residuals are summed along the track.               *)
EXTENDS ResidOps, TLC
CONSTANTS A, F, K, Len0, Last, Variant
VARIABLES u, v, e, n0, n, sa, sf
vars == <<u, v, e, n0, n, sa, sf>>
Partial == [a : A, k : K, f : F, q : 0..3]
RECURSIVE Two(_)
Two(j) == IF j = 0 THEN 1 ELSE 2 * Two(j - 1)
\* a partial after m quarters from zero; amplitudes times 2^m, K within {0, 1}
At(p, m) == [a |-> p.a * Two((1 - p.k) * m), k |-> p.k, f |-> p.f, q |-> (p.q + p.f * m) % 4]
Exchanged == <<[u EXCEPT !.f = v.f, !.q = v.q], [v EXCEPT !.f = u.f, !.q = u.q]>>
Init == /\ u \in Partial /\ v \in Partial
        /\ e \in {<<u, v>>, <<v, u>>, Exchanged, <<u, u>>}
        /\ n0 \in 0..Last /\ n = 0 /\ sa = 0 /\ sf = 0
Clock == IF Variant = "fromzero" THEN n ELSE n0 + n
Next == /\ n < Len0 /\ n' = n + 1 /\ UNCHANGED <<u, v, e, n0>>
        /\ LET x == At(u, n0 + n) y == At(v, n0 + n)
               p == At(e[1], Clock) q == At(e[2], Clock) IN
           /\ sa' = sa + Abs(Am2(x, y) - Am2(p, q))
           /\ sf' = sf + Abs(FmTurn2(x, y) - (IF Variant = "unweighted"
                             THEN (p.f + q.f) * Am2(p, q) ELSE FmTurn2(p, q)))
Spec == Init /\ [][Next]_vars
Truth == e = <<u, v>> \/ e = <<v, u>> => sa = 0 /\ sf = 0
\* amplitudes alone cannot tell which frequency is whose
Dual == e = Exchanged => sa = 0
\* frequencies can, but for equal amplitudes or frequencies
Told == e = Exchanged /\ n = 1 /\ sf = 0 =>
  LET x == At(u, n0) y == At(v, n0) IN x.a = y.a \/ x.f = y.f \/ x.a + y.a = 0
================================================================================
