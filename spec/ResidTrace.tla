------------------------------- MODULE ResidTrace ------------------------------
(* One use of the real regressions of beats. Kinds:                             *)
(*  "amp" [A (amplitudes of the track), pts: [u, v, unit] (partials of the      *)
(*    estimate, all amplitudes times unit), got (absolute residuals times unit)]*)
(*  "dual" [A, f (true frequencies), pts: [u, v], c (clip, in quarters, or -1), *)
(*    atrue, aest, ftrue, fest (what the losses are given, frequencies in       *)
(*    thousandths), ta, tf (what they return), w, ssq (sum of squared residuals)]*)
(*  "mel" [g, h, got]: frequencies 700 (10^(g/12) - 1) and the same for h;      *)
(*    absolute residual divided by the weight, times 12                         *)
(*  "start" [m, d, mean, got: [a0, a1, d0, d1 (thousandths of 2^m / 2 and d),   *)
(*    sum (thousandths of twice the mean frequency)]]                           *)
(*  "rate" [rate (percent of the true rate), phase (hundredths of turn, half    *)
(*    way), decay (percent), mean]                                              *)
(*  "call" [events, fitted, kept (parameters, as tokens)]                       *)
EXTENDS ResidOps, Batch
VARIABLES tid, done
vars == <<tid, done>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ done = FALSE
Is(what, got, want) ==
  IF got = want THEN {} ELSE {what \o " " \o ToString(got) \o " instead of "
                              \o ToString(want)}
Near(what, got, want, e) ==
  IF Len(got) = Len(want) /\ \A i \in 1..Len(got) : Abs(got[i] - want[i]) <= e THEN {}
  ELSE Is(what, got, want)
N == Len(T.pts)
Sum(q, k) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + k * k * q[i] * q[i]
             IN S(Len(q))
Thousandths(q) == [i \in 1..Len(q) |-> 1000 * Abs(q[i])]
Bad ==
  IF T.err # "" THEN {"raised " \o T.err} ELSE
  CASE T.kind = "amp" ->
         Is("residuals", T.got, [i \in 1..N |->
           Abs(T.pts[i].unit * T.A[i] - Level(T.pts[i].u, T.pts[i].v))])
    [] T.kind = "dual" ->
         Is("true amplitudes", T.atrue, T.A)
         \cup Is("estimated amplitudes", T.aest,
                 [i \in 1..N |-> Level(T.pts[i].u, T.pts[i].v)])
         \cup Near("true frequencies", T.ftrue, Thousandths(T.f), 1)
         \cup Near("estimated frequencies", T.fest,
                   Kept([i \in 1..N |-> Freq(T.pts[i].u, T.pts[i].v, 1000)], T.c), 9)
         \cup Is("squared residuals", T.ssq, Sum(T.ta, 1) + Sum(T.tf, T.w))
    [] T.kind = "mel" -> Is("residual", T.got, 2595 * Abs(T.g - T.h))
    [] T.kind = "start" -> Is("start", T.got, [k \in 1..5 |-> 1000])
    [] T.kind = "rate" ->
         (IF Abs(T.rate - 100) <= 15 THEN {} ELSE {"rate " \o ToString(T.rate)})
         \cup (IF Abs(T.phase) <= 20 THEN {} ELSE {"phase " \o ToString(T.phase)})
         \cup Is("mean", T.mean, 1000)
    [] T.kind = "call" ->
         Is("calls", T.events, <<"start", "bounds", "optimise">>)
         \cup Is("parameters", T.kept, T.fitted)
    [] OTHER -> {"unknown event"}
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ LET b == Bad IN Verdict(tid, b = {}, 1, T.kind \o ": " \o Join(b))
Spec == Init /\ [][Next]_vars
================================================================================
