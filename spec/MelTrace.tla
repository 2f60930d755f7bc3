------------------------------- MODULE MelTrace -------------------------------
(* One call of the real code, in units of 1/L.                                 *)
(* bank: [c (corners or centres), b (widths, empty: none), freqs, got, at      *)
(*   (centres returned)]    short: too few corners: out is the outcome         *)
(* apply: [bank (integers or units), cols (magnitudes), p, got: columns, each  *)
(*   raised to p]   linear: [bank, re, im, gre, gim] filters complex values    *)
EXTENDS MelOps, Batch
VARIABLES tid, done
vars == <<tid, done>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ done = FALSE
Fs == IF T.b = <<>> THEN Overlapped(T.c) ELSE Banded(T.c, T.b)
BadBank ==
  (IF T.at # Centres(Fs) THEN {"centres " \o ToString(T.at)} ELSE {})
  \cup (IF Len(T.got) # Len(Fs) THEN {"number of filters"} ELSE
        UNION {IF T.got[k] = Bank(Fs, T.freqs, T.L)[k] THEN {} ELSE
               {"filter " \o ToString(k) \o " is " \o ToString(T.got[k])} :
               k \in 1..Len(Fs)})
Cols(cols, got, p) ==
  UNION {IF got[j] = Applied(T.bank, cols[j], p) THEN {} ELSE
         {"output " \o ToString(got[j]) \o " instead of "
          \o ToString(Applied(T.bank, cols[j], p))} : j \in 1..Len(cols)}
Bad == IF T.err # "" THEN {"raised " \o T.err} ELSE
  CASE T.kind = "bank" -> BadBank
    [] T.kind = "short" -> (IF T.out = "ValueError" THEN {} ELSE {"accepted"})
    [] T.kind = "apply" -> Cols(T.cols, T.got, T.p)
    [] OTHER -> Cols(T.re, T.gre, 1) \cup Cols(T.im, T.gim, 1)
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ LET b == Bad IN Verdict(tid, b = {}, 1, Join(b))
Spec == Init /\ [][Next]_vars
================================================================================
