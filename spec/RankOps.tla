-------------------------------- MODULE RankOps --------------------------------
(* Ranked modes.  A mode is [f, d, a] with integers; energy is a*a*d (over 4). *)
EXTENDS Integers, Sequences, FiniteSets
Feature(m, order) == CASE order = "energies" -> m.a * m.a * m.d
                       [] order = "freqs" -> m.f
                       [] order = "amps" -> m.a
                       [] order = "decays" -> m.d
IsPerm(r, n) == /\ Len(r) = n
                /\ {r[j] : j \in DOMAIN r} = 1..n
Before(u, v, order, reverse) ==
  IF reverse THEN Feature(u, order) >= Feature(v, order)
  ELSE Feature(u, order) <= Feature(v, order)
IsRanking(r, ms, order, reverse) ==
  /\ IsPerm(r, Len(ms))
  /\ \A j \in 1..(Len(r) - 1) : Before(ms[r[j]], ms[r[j + 1]], order, reverse)
Min(a, b) == IF a < b THEN a ELSE b
\* limit -1: none
Active(limit, n) == IF limit = -1 THEN n ELSE Min(limit, n)
\* n: argument of the resynthesis, limit: the model's
Sounding(n, limit, total) == IF n # -1 THEN Min(n, total) ELSE Active(limit, total)
First(r, k) == {r[j] : j \in 1..k}
================================================================================
