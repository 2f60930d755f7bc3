------------------------------- MODULE RankTrace -------------------------------
(* One real model with a known mode table, exported and resynthesised.         *)
(* [modes, order, reverse, limit, n, err, json, rank, exp, heard, clean]:      *)
(* rank the ranking (indices from 1), exp the exported dictionary, heard for   *)
(* each mode how many times it is in the sound (1 or 0), clean: nothing else   *)
(* is in it.                                                                   *)
EXTENDS RankOps, Batch
VARIABLES tid, done
vars == <<tid, done>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ done = FALSE
N == Len(T.modes)
Exp(r) ==
  LET x == T.exp IN
  (IF x.nModes # N THEN {"number of modes " \o ToString(x.nModes)} ELSE {})
  \cup (IF x.activeModes # Active(T.limit, N)
        THEN {"active modes " \o ToString(x.activeModes)} ELSE {})
  \cup (IF x.freqs # [j \in 1..N |-> T.modes[r[j]].f] THEN {"freqs"} ELSE {})
  \cup (IF x.decays # [j \in 1..N |-> T.modes[r[j]].d] THEN {"decays"} ELSE {})
  \cup (IF x.gains # <<[j \in 1..N |-> T.modes[r[j]].a]>> THEN {"gains"} ELSE {})
  \cup (IF ~x.weights THEN {"weights"} ELSE {})
Bad ==
  IF T.err # "" THEN {"raised " \o T.err} ELSE
  IF ~IsRanking(T.rank, T.modes, T.order, T.reverse)
  THEN {"ranking " \o ToString(T.rank)} ELSE
  (IF ~T.json THEN {"not serialisable"} ELSE {})
  \cup {"exported " \o e : e \in Exp(T.rank)}
  \cup LET s == First(T.rank, Sounding(T.n, T.limit, N)) IN
       (IF \E m \in 1..N : /\ T.modes[m].a # 0
                           /\ T.heard[m] # (IF m \in s THEN 1 ELSE 0)
        THEN {"heard " \o ToString(T.heard) \o " instead of " \o ToString(s)}
        ELSE {})
  \cup (IF ~T.clean THEN {"something else is heard"} ELSE {})
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ LET b == Bad IN Verdict(tid, b = {}, 1, Join(b))
Spec == Init /\ [][Next]_vars
================================================================================
