------------------------------ MODULE RemapTrace -------------------------------
(* One call of the default remapping: [given, model (what is used where        *)
(* nothing is given), err, got, own (the window is the given one), kind        *)
(* (kinds which the window is), others (the other arguments are untouched)].   *)
EXTENDS RemapOps, Batch
VARIABLES tid, done
vars == <<tid, done>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ done = FALSE
\* the remapping alone knows no model: everything is computed
Alone(g) ==
  LET n == IF g.n # -1 THEN g.n ELSE IF g.logn # -1 THEN Pow2(g.logn) ELSE T.model.n
      w == IF g.w # -1 THEN g.w
           ELSE (n * (IF g.wsize = -1 THEN 16 ELSE g.wsize)) \div 16
      t == IF g.w # -1 THEN 0 ELSE IF g.wtype = -1 THEN 1 ELSE g.wtype
  IN [n |-> n, w |-> w, t |-> t, h |-> IF g.h # -1 THEN g.h ELSE Hop(w, g.overlap)]
Bad ==
  IF T.err # "" THEN {"raised " \o T.err} ELSE
  LET e == Alone(T.given) IN
  (IF T.got.n # e.n /\ (T.given.n # -1 \/ T.given.logn # -1)
   THEN {"FFT size " \o ToString(T.got.n) \o " not " \o ToString(e.n)} ELSE {})
  \cup (IF T.got.w # e.w \/ e.t \notin {T.kind[k] : k \in 1..Len(T.kind)}
        THEN {"window " \o ToString(<<T.got.w, T.kind>>) \o " not "
              \o ToString(<<e.w, e.t>>)} ELSE {})
  \cup (IF T.got.h # e.h THEN {"hop " \o ToString(T.got.h) \o " not "
                               \o ToString(e.h)} ELSE {})
  \cup (IF ~T.others THEN {"other arguments"} ELSE {})
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ LET b == Bad IN Verdict(tid, b = {}, 1, Join(b))
Spec == Init /\ [][Next]_vars
================================================================================
