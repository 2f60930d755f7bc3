------------------------------- MODULE MC_Rank --------------------------------
(* All small mode tables: rankings exist, and the first k of any ranking are   *)
(* k modes of which none is beaten by one left out.                            *)
EXTENDS RankOps
CONSTANTS MaxModes
VARIABLES ms, order, reverse, k
vars == <<ms, order, reverse, k>>
Mode == [f : {1, 2}, d : {1, 2}, a : {0, 1, 2}]
Perms(n) == {r \in [1..n -> 1..n] : IsPerm(r, n)}
Init == /\ \E n \in 0..MaxModes : ms \in [1..n -> Mode]
        /\ order \in {"energies", "freqs", "amps", "decays"}
        /\ reverse \in BOOLEAN /\ k = 0
Next == k < Len(ms) /\ k' = k + 1 /\ UNCHANGED <<ms, order, reverse>>
Spec == Init /\ [][Next]_vars
R == {r \in Perms(Len(ms)) : IsRanking(r, ms, order, reverse)}
Exists == R # {}
Best == \A r \in R : \A i \in First(r, k), j \in 1..Len(ms) \ First(r, k) :
          Before(ms[i], ms[j], order, reverse)
Opposite == \A r \in R :
  IsRanking([j \in 1..Len(r) |-> r[Len(r) + 1 - j]], ms, order, ~reverse)
Limits == /\ Sounding(-1, k, Len(ms)) = k
          /\ \A n \in 0..Len(ms) : Sounding(n, k, Len(ms)) = n
===============================================================================
