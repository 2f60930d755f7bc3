---------------------------- MODULE GeneratorTrace -----------------------------
(* History of several real generators: gens are [cfg (seed and settings)],     *)
(* steps [g, kind, values (codes of the values obtained, one for each), parts  *)
(* (codes of the parts of a sound)]; the same code is the same value.          *)
(* seen: values known for every configuration and history so far.              *)
EXTENDS Integers, Sequences, FiniteSets, Batch
VARIABLES tid, i, word, seen
vars == <<tid, i, word, seen>>
T == Traces[tid]
Init == /\ tid \in 1..Len(Traces) /\ i = 0 /\ seen = {}
        /\ word = [g \in 1..Len(T.gens) |-> <<>>]
E == T.steps[i + 1]
W(n) == word[E.g] \o [j \in 1..n |-> E.kind]
New == {[cfg |-> T.gens[E.g], w |-> W(n), v |-> E.values[n], parts |-> E.parts[n]] : n \in 1..Len(E.values)}
Bad ==
  (IF E.err # "" THEN {"raised " \o E.err} ELSE {})
  \cup (IF Len(E.values) # E.n THEN {"number of values " \o ToString(Len(E.values))} ELSE {})
  \cup (IF \E p \in New, q \in seen : p.cfg = q.cfg /\ p.w = q.w /\ p.v # q.v
        THEN {"not reproducible"} ELSE {})
  \cup (IF \E p, q \in New \cup seen : /\ <<p.cfg, p.w>> # <<q.cfg, q.w>>
                                       /\ \/ p.v = q.v
                                          \/ \E j \in DOMAIN p.parts, k \in DOMAIN q.parts :
                                               p.parts[j] = q.parts[k]
        THEN {"the same value again"} ELSE {})
  \cup (IF ~E.private THEN {"the global random state changed"} ELSE {})
Next == /\ i < Len(T.steps) /\ i' = i + 1 /\ UNCHANGED tid
        /\ word' = [word EXCEPT ![E.g] = W(Len(E.values))]
        /\ seen' = seen \cup New
        /\ LET b == Bad IN
           IF b # {} THEN Verdict(tid, FALSE, i + 1, Join(b))
           ELSE IF i + 1 = Len(T.steps) THEN Verdict(tid, TRUE, i + 1, "") ELSE TRUE
Spec == Init /\ [][Next]_vars
================================================================================
