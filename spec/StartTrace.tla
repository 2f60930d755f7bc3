------------------------------ MODULE StartTrace ------------------------------
(* One regression of the real code. Values that are compared are given as      *)
(* ranks (of all those of the same quantity). kind:                            *)
(* "beat": params: 8 x [lo st hi re], seen (smallest and largest observed      *)
(*   value for each of parameters 1 to 4), zero (rank of 0 per parameter), turn   *)
(*   (width of the phase bounds, thousandths of half a turn), cost (start, result)      *)
(* "hinge": x, y integers, lin: slope and intercept over Den; params: 3 x      *)
(*   [lo st hi re]; seen: smallest and largest x among those of the knee; cost *)
(* "refuse": starts which the given bounds exclude: out is the outcome         *)
(* "predict": x, a, k, q integers, got                                         *)
EXTENDS Integers, Sequences, FiniteSets, Batch
VARIABLES tid, done
vars == <<tid, done>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ done = FALSE
Rng(s) == {s[j] : j \in DOMAIN s}
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Dot(s, t) == Sum([j \in DOMAIN s |-> s[j] * t[j]])
Name(j) == "parameter " \o ToString(j)
End(p, j) ==
  IF p.re < p.lo \/ p.re > p.hi THEN {Name(j) \o " ends outside its bounds"} ELSE {}
Cost == IF T.cost[2] > T.cost[1] THEN {"the result is worse than the start"} ELSE {}
Covers(p, s, j) == IF p.lo > s[1] \/ p.hi < s[2]
  THEN {"the bounds of " \o Name(j) \o " exclude observed values"} ELSE {}
BadBeat ==
  UNION {LET p == T.params[j] IN
    End(p, j) \cup
    (IF p.lo < p.st /\ p.st < p.hi THEN {} ELSE
     {Name(j) \o " starts outside its bounds"}) \cup
    (IF j \in {1, 2} THEN Covers(p, T.seen[j], j) \cup
        (IF p.lo < T.zero[j] THEN {"negative amplitudes"} ELSE {})
     ELSE IF j \in {3, 4} THEN Covers(p, T.seen[j], j)
     ELSE IF j \in {5, 6} THEN (IF p.lo <= T.zero[j] THEN {"decays of zero"} ELSE {})
     ELSE {}) : j \in 1..8}
  \cup (IF T.turn # <<2000, 2000>> THEN {"phases out of reach"} ELSE {})
  \cup Cost
BadHinge ==
  LET n == Len(T.x)
      one == [j \in 1..n |-> 1]
      k == n * Dot(T.x, T.y) - Sum(T.x) * Sum(T.y)
      q == Sum(T.y) * Dot(T.x, T.x) - Sum(T.x) * Dot(T.x, T.y)
  IN UNION {LET p == T.params[j] IN
      End(p, j) \cup (IF p.lo <= p.st /\ p.st <= p.hi /\ p.lo < p.hi THEN {} ELSE
        {Name(j) \o " starts outside its bounds"}) : j \in 1..3}
     \cup (IF T.params[1].lo > T.seen[1] \/ T.params[1].hi < T.seen[2]
           THEN {"knees out of reach"} ELSE {})
     \cup (IF T.lin # <<k, q>> THEN {"starts from the line " \o ToString(T.lin)
             \o " instead of " \o ToString(<<k, q>>)} ELSE {})
     \cup Cost
Lower(a, b) == IF a < b THEN a ELSE b
BadPredict ==
  LET e == [j \in DOMAIN T.x |-> T.k * Lower(T.x[j], T.a) + T.q] IN
  IF T.got = e THEN {} ELSE {"predicts " \o ToString(T.got)}
Bad == IF T.err # "" THEN {"raised " \o T.err} ELSE
  CASE T.kind = "beat" -> BadBeat
    [] T.kind = "hinge" -> BadHinge
    [] T.kind = "refuse" -> (IF T.out = "ValueError" THEN {} ELSE {"accepted"})
    [] OTHER -> BadPredict
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ LET b == Bad IN Verdict(tid, b = {}, 1, Join(b))
Spec == Init /\ [][Next]_vars
================================================================================
