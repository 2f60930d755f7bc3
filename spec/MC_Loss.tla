-------------------------------- MODULE MC_Loss --------------------------------
(* The computation in place, on the same two arrays, of the spectral loss:      *)
(* magnitudes, their distance, levels (over the magnitudes), floor, distance.   *)
(* Magnitudes are powers of two here, levels their exponents.                   *)
EXTENDS LossOps, TLC
CONSTANTS N, Top, P, Variant
VARIABLES x, y, z, fl, a, b, pc, lin, log
vars == <<x, y, z, fl, a, b, pc, lin, log>>
Sp == [1..N -> 0..Top]
RECURSIVE Two(_)
Two(k) == IF k = 0 THEN 1 ELSE 2 * Two(k - 1)
Mag(s) == [i \in 1..N |-> Two(s[i])]
Exp(v) == CHOOSE k \in 0..Top : Two(k) = v
Init == /\ x \in Sp /\ y \in Sp /\ z \in Sp /\ fl \in 0..Top
        /\ a = <<>> /\ b = <<>> /\ pc = "stft" /\ lin = 0 /\ log = 0
Sub(u, v) == SumSeq([i \in 1..N |-> Pow(u[i] - v[i], P)])
D(u, v) == IF Variant = "signed" THEN Sub(u, v) ELSE Dist(u, v, P)
Go(from, to) == pc = from /\ pc' = to /\ UNCHANGED <<x, y, z, fl>>
Next ==
  \/ Go("stft", IF Variant = "early" THEN "floor" ELSE "lin")
     /\ a' = Mag(x) /\ b' = Mag(y) /\ UNCHANGED <<lin, log>>
  \/ Go("lin", IF Variant = "early" THEN "db" ELSE "floor")
     /\ lin' = D(a, b) /\ UNCHANGED <<a, b, log>>
  \/ Go("floor", IF Variant = "early" THEN "lin" ELSE "db")
     /\ a' = Floored(a, IF Variant = "level" THEN fl ELSE Two(fl))
     /\ b' = (IF Variant = "one" THEN b
              ELSE Floored(b, IF Variant = "level" THEN fl ELSE Two(fl)))
     /\ UNCHANGED <<lin, log>>
  \/ Go("db", "log") /\ a' = [i \in 1..N |-> Exp(a[i])]
     /\ b' = [i \in 1..N |-> Exp(b[i])] /\ UNCHANGED <<lin, log>>
  \/ Go("log", "done") /\ log' = D(a, b) /\ UNCHANGED <<a, b, lin>>
Spec == Init /\ [][Next]_vars
Done == pc = "done"
Defined == Done => /\ lin = Dist(Mag(x), Mag(y), P)
                   /\ log = LevelDist(x, y, fl, P)
\* what makes it a distance
Lin(u, v) == Dist(Mag(u), Mag(v), P)
Lev(u, v) == LevelDist(u, v, fl, P)
Metric == Done =>
  /\ lin >= 0 /\ log >= 0 /\ lin = Lin(y, x) /\ log = Lev(y, x)
  /\ (lin = 0) <=> (x = y)
  /\ (log = 0) <=> \A i \in 1..N : x[i] = y[i] \/ (x[i] <= fl /\ y[i] <= fl)
  /\ P = 1 => lin <= Lin(x, z) + Lin(z, y) /\ log <= Lev(x, z) + Lev(z, y)
\* a higher floor never increases the distance of levels
Lower == Done => \A f \in fl..Top : LevelDist(x, y, f, P) <= log
================================================================================
