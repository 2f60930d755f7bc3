----------------------------- MODULE BeatSumTrace -----------------------------
(* One beat of the real code, asked at multiples of a quarter second. Partials *)
(* u, v are those at the time asked; `unit`: what all amplitudes were divided  *)
(* by. Observed, <<>> when undefined: am2 (squared amplitude), fm (thousandths *)
(* of turns: twice frequency times squared amplitude), x (the sound).          *)
EXTENDS BeatSumOps, Batch
VARIABLES tid, done
vars == <<tid, done>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ done = FALSE
Abs(x) == IF x < 0 THEN -x ELSE x
\* thousandths; what decays turns by 4 ln 2 / pi = .882542 of FmFall
Thousandths(u, v) == 1000 * FmTurn2(u, v) - (88254 * FmFall(u, v)) \div 100
At(t) ==
  LET u == t.u v == t.v n == " at quarter " \o ToString(t.at) IN
  (IF t.am2 # Am2(u, v) THEN {"squared amplitude " \o ToString(t.am2) \o " instead of "
     \o ToString(Am2(u, v)) \o n} ELSE {})
  \cup (IF t.fm # <<>> /\ Abs(t.fm[1] - Thousandths(u, v)) > 3 + Abs(FmFall(u, v)) \div 50
        THEN {"frequency " \o ToString(t.fm[1]) \o " instead of "
              \o ToString(Thousandths(u, v)) \o n} ELSE {})
  \cup (IF t.x # <<>> /\ t.x[1] # Re(u, v)
        THEN {"sound " \o ToString(t.x[1]) \o " instead of " \o ToString(Re(u, v)) \o n}
        ELSE {})
Bad == IF T.err # "" THEN {T.err} ELSE
  UNION {At(T.steps[k]) : k \in 1..Len(T.steps)}
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ LET b == Bad IN Verdict(tid, b = {}, 1, Join(b))
Spec == Init /\ [][Next]_vars
================================================================================
