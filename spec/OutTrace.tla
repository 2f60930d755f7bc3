------------------------------- MODULE OutTrace -------------------------------
(* One real call of an array function.                                        *)
(* fn, variants, default: its variants; sel: the one asked for ("" none given); *)
(* buf: "none", "fresh" or "alias"; scalar: the input is one number.          *)
(* Observed: err, named (the error lists exactly the variants), ret: "buffer" *)
(* (that very object), "new" or "input" (shares memory with an input), kind:  *)
(* "scalar" or "array", shape, val/bufval: names of the variants whose values *)
(* are returned / in the buffer, intact: inputs (but the buffer) unmodified.  *)
EXTENDS Batch
VARIABLES tid, done
vars == <<tid, done>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ done = FALSE
Sel == IF T.sel = "" THEN T.default ELSE T.sel
Has(s, x) == \E k \in 1..Len(s) : s[k] = x
Bad ==
  IF ~Has(T.variants, Sel)
  THEN (IF T.err # "ValueError" THEN {"unknown variant: " \o T.err} ELSE {})
       \cup (IF ~T.named THEN {"the error does not list the variants"} ELSE {})
       \cup (IF ~T.intact THEN {"input modified"} ELSE {})
  ELSE IF T.err # "" THEN {"raised " \o T.err} ELSE
  (IF ~Has(T.val, Sel) THEN {"value of " \o ToString(T.val)
                             \o " instead of " \o Sel} ELSE {})
  \cup (IF ~T.intact THEN {"input modified"} ELSE {})
  \cup (IF ~T.shape THEN {"shape"} ELSE {})
  \cup (IF T.buf = "none"
        THEN (IF T.ret # "new" THEN {"returned its " \o T.ret} ELSE {})
             \cup (IF T.kind # (IF T.scalar THEN "scalar" ELSE "array")
                   THEN {"returned a " \o T.kind} ELSE {})
        ELSE (IF T.ret # "buffer" THEN {"did not return the buffer"} ELSE {})
             \cup (IF ~Has(T.bufval, Sel) THEN {"buffer holds " \o ToString(T.bufval)
                                                \o " instead of " \o Sel} ELSE {}))
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ LET b == Bad IN Verdict(tid, b = {}, 1, Join(b))
Spec == Init /\ [][Next]_vars
=============================================================================
