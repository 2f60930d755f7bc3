------------------------------- MODULE ScaleTrace ------------------------------
(* One use of the real conversions. Kinds:                                      *)
(*  "point" [scale, g, v (value of the scale there, times its unit), form]      *)
(*  "walk" [kind, fs (frequencies, increasing), steps: way (its place among     *)
(*    those of the kind), rising (values are increasing), back (frequencies     *)
(*    after coming back, in millionths of those given; empty if the way does    *)
(*    not come back), same (whichever the form of arguments)]                   *)
EXTENDS ScaleOps, Batch
VARIABLES tid, done
vars == <<tid, done>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ done = FALSE
BadStep(i) ==
  LET s == T.steps[i] nm == Ways(T.kind)[s.way] IN
  (IF s.rising THEN {} ELSE {nm \o " does not increase"})
  \cup (IF s.same THEN {} ELSE {nm \o " depends on the form of its argument"})
  \cup (IF s.back = (IF Returns(nm) THEN [k \in 1..Len(T.fs) |-> 1000000]
                     ELSE <<>>) THEN {}
        ELSE {nm \o " comes back as " \o ToString(s.back)})
Bad ==
  IF T.err # "" THEN {"raised " \o T.err} ELSE
  CASE T.kind = "point" ->
         IF Right(T.scale, T.g, T.v) THEN {}
         ELSE {T.scale \o " is " \o ToString(T.v) \o " at point " \o ToString(T.g)}
    [] OTHER -> UNION {BadStep(i) : i \in 1..Len(T.steps)}
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ LET b == Bad IN Verdict(tid, b = {}, 1, Join(b))
Spec == Init /\ [][Next]_vars
================================================================================
