-------------------------------- MODULE MC_Beat --------------------------------
(* Every octuple of small values, turned, reassociated and sorted repeatedly.  *)
EXTENDS BeatOps
CONSTANTS Values, Variant
VARIABLES p, start, last
vars == <<p, start, last>>
Init == /\ p \in [1..8 -> Values] /\ start = p /\ last = "none"
Swap(q) == IF Variant = "nophase" THEN [Turn(q) EXCEPT ![7] = q[7], ![8] = q[8]]
           ELSE Turn(q)
Order(desc) ==
  LET k1 == Energy(p, 1) k2 == Energy(p, 2) IN
  /\ p' = (IF k1 = k2 THEN p
           ELSE IF (k1 < k2) = ~desc THEN p ELSE Swap(p))
  /\ last' = (IF desc THEN "descending" ELSE "ascending")
Associate == p' = Other(p) /\ last' = "other"
Next == /\ last \in {"none", "other"} /\ UNCHANGED start
        /\ ((\E d \in BOOLEAN : Order(d)) \/ (last = "none" /\ Associate))
Spec == Init /\ [][Next]_vars
Set(q) == {Partial(q, 1), Partial(q, 2)}
\* sorting never makes a new partial
SamePartials == last \in {"ascending", "descending"} =>
                  Set(p) = Set(start) \/ Set(p) = Set(Other(start))
InOrder == /\ last = "ascending" => Energy(p, 1) <= Energy(p, 2)
           /\ last = "descending" => Energy(p, 1) >= Energy(p, 2)
Involutions == Turn(Turn(p)) = p /\ Other(Other(p)) = p /\ Turn(Other(p)) = Other(Turn(p))
\* amplitudes stay with decays and frequencies with phases
Kept == LET q == Other(p) IN
  /\ {<<q[k], q[k + 4]>> : k \in 1..2} = {<<p[k], p[k + 4]>> : k \in 1..2}
  /\ {<<q[k + 2], q[k + 6]>> : k \in 1..2} = {<<p[k + 2], p[k + 6]>> : k \in 1..2}
Allowed == \A desc \in BOOLEAN :
  \A q \in Sorted(p, Energy(p, 1), Energy(p, 2), desc) : Set(q) = Set(p)
================================================================================
