------------------------------- MODULE Generator -------------------------------
(* Generators of random sounds: each has a private stream (its seed) and a     *)
(* position in it; a request for a number of values of a kind advances it and  *)
(* yields values determined by seed and position.  What a value consumes       *)
(* depends on its kind only.                                                   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Gens, Seeds, MaxDraws, Variant
VARIABLES seed, word, got, global
vars == <<seed, word, got, global>>
Kinds == {"f", "d"}
Init == /\ seed \in [Gens -> Seeds] /\ word = [g \in Gens |-> <<>>]
        /\ got = [g \in Gens |-> <<>>] /\ global = 0
Value(g, w) ==
  CASE Variant = "global" -> <<seed[g], w, global>>
    [] Variant = "shared" -> <<0, w, Len(word[1]) + Len(word[2])>>
    [] Variant = "again" -> <<seed[g], w[Len(w)]>>
    [] OTHER -> <<seed[g], w>>
RECURSIVE Draw(_, _, _, _)
Draw(g, w, kind, n) ==
  IF n = 0 THEN <<>> ELSE
  LET v == Append(w, kind) IN <<Value(g, v)>> \o Draw(g, v, kind, n - 1)
Rep(kind, n) == [j \in 1..n |-> kind]
Request(g, kind, n) ==
  /\ Len(word[g]) + n <= MaxDraws
  /\ LET given == Draw(g, word[g], kind, n)
         kept == IF Variant = "block" THEN Rep(kind, IF n = 0 THEN 0 ELSE 1)
                 ELSE Rep(kind, n)
     IN /\ got' = [got EXCEPT ![g] = @ \o [j \in 1..n |-> <<kind, given[j]>>]]
        /\ word' = [word EXCEPT ![g] = @ \o kept]
  /\ UNCHANGED <<seed, global>>
Elsewhere == /\ global < 2 /\ global' = global + 1 /\ UNCHANGED <<seed, word, got>>
Next == Elsewhere \/ \E g \in Gens, k \in Kinds, n \in 0..2 : Request(g, k, n)
Spec == Init /\ [][Next]_vars
KindsOf(q) == [j \in 1..Len(q) |-> q[j][1]]
Min(p, q) == IF p < q THEN p ELSE q
\* as long as the same has been asked for, the values are the same
Reproducible == \A g, h \in Gens : seed[g] = seed[h] =>
  \A n \in 0..Min(Len(got[g]), Len(got[h])) :
    KindsOf(SubSeq(got[g], 1, n)) = KindsOf(SubSeq(got[h], 1, n)) =>
      SubSeq(got[g], 1, n) = SubSeq(got[h], 1, n)
Fresh == \A g \in Gens : \A p, q \in 1..Len(got[g]) : p # q => got[g][p] # got[g][q]
Differ == \A g, h \in Gens : seed[g] # seed[h] =>
  \A p \in 1..Len(got[g]), q \in 1..Len(got[h]) : got[g][p] # got[h][q]
================================================================================
