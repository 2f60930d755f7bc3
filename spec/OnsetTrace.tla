------------------------------ MODULE OnsetTrace -------------------------------
(* One call of the real code.                                                  *)
(* kind max: [x, w, key, and, prev, got]: masks are sequences of 0/1           *)
(* kind sel: [x, w, m, a, d, K, exact, got]                                    *)
(* kind det: the same with size (of the audio) and got its mask positions      *)
(* kind flux: [mat, got]                                                       *)
EXTENDS OnsetOps, Batch
VARIABLES tid, done
vars == <<tid, done>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ done = FALSE
Set(q) == {q[i] : i \in 1..Len(q)}
Ones(q) == {i \in 1..Len(q) : q[i] = 1}
BadMax ==
  LET e == {i \in Maxima(T.x, T.key, T.w) : T.and => T.prev[i] = 1} IN
  IF Len(T.got) # Len(T.x) THEN {"length"} ELSE
  (IF Ones(T.got) \ e # {} THEN {"not maxima " \o ToString(Ones(T.got) \ e)} ELSE {})
  \cup (IF e \ Ones(T.got) # {} THEN {"maxima missing " \o ToString(e \ Ones(T.got))}
        ELSE {})
Lo == Certain(T.x, T.w, T.m, T.a, T.d, T.K, T.exact)
Hi == Possible(T.x, T.w, T.m, T.a, T.d, T.K, T.exact)
Between(got, lo, hi) ==
  (IF lo \ got # {} THEN {"onsets missing " \o ToString(lo \ got)} ELSE {})
  \cup (IF got \ hi # {} THEN {"not onsets " \o ToString(got \ hi)} ELSE {})
BadSel == IF Len(T.got) # Len(T.x) THEN {"length"} ELSE Between(Ones(T.got), Lo, Hi)
BadDet ==
  (IF T.len # T.size THEN {"length"} ELSE {})
  \cup Between(Set(T.got), {Place(i, Len(T.x), T.size) : i \in Lo},
               {Place(i, Len(T.x), T.size) : i \in Hi})
BadFlux ==
  LET e == [t \in 1..(Len(T.mat[1]) - 1) |-> Flux(T.mat, t)] IN
  IF Len(T.got) # Len(e) THEN {"length"} ELSE
  IF \E t \in 1..Len(e) : e[t] # T.got[t]
  THEN {"flux " \o ToString(T.got) \o " not " \o ToString(e)} ELSE {}
Bad ==
  IF T.err # "" THEN {"raised " \o T.err} ELSE
  CASE T.kind = "max" -> BadMax [] T.kind = "sel" -> BadSel
    [] T.kind = "det" -> BadDet [] OTHER -> BadFlux
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ LET b == Bad IN Verdict(tid, b = {}, 1, Join(b))
Spec == Init /\ [][Next]_vars
================================================================================
