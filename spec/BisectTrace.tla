------------------------------ MODULE BisectTrace ------------------------------
(* One real search: positions in units of a quarter of the final accuracy, in  *)
(* 0..size.  cuts: where the sign changes, [at, sign after it]; first: sign at *)
(* the start; zeros: where it is zero.  asked: positions evaluated, a: result. *)
EXTENDS Integers, Sequences, FiniteSets, Batch
VARIABLES tid, done
vars == <<tid, done>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ done = FALSE
Abs(z) == IF z < 0 THEN -z ELSE z
Zeros == {T.zeros[j] : j \in 1..Len(T.zeros)}
RECURSIVE After(_, _)
After(p, j) == IF j = 0 THEN T.first
               ELSE IF T.cuts[j].at <= p THEN T.cuts[j].sign ELSE After(p, j - 1)
F(p) == IF p \in Zeros THEN 0 ELSE After(p, Len(T.cuts))
Crossings == Zeros \cup {T.cuts[j].at : j \in 1..Len(T.cuts)}
Refuse == F(0) * F(T.size) > 0
Asked == {T.asked[j] : j \in 1..Len(T.asked)}
Bad ==
  IF Refuse
  THEN (IF T.err = "ValueError" THEN {} ELSE {"equal signs accepted"})
  ELSE IF T.err # "" THEN {"raised " \o T.err} ELSE
  (IF T.a \notin 0..T.size THEN {"result outside: " \o ToString(T.a)}
   ELSE IF \E z \in Crossings : Abs(T.a - z) <= 4 THEN {}
        ELSE {"no crossing near " \o ToString(T.a)})
  \* a zero that it met inside is the answer
  \cup (IF \E p \in Asked \cap Zeros : p \notin {0, T.size} /\ T.a # p
        THEN {"zero met but " \o ToString(T.a)} ELSE {})
  \cup (IF Asked \subseteq 0..T.size THEN {} ELSE {"evaluated outside"})
  \cup (IF Len(T.asked) <= T.steps + 2 THEN {} ELSE
        {"evaluated " \o ToString(Len(T.asked)) \o " times"})
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ LET b == Bad IN Verdict(tid, b = {}, 1, Join(b))
Spec == Init /\ [][Next]_vars
================================================================================
