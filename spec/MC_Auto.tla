-------------------------------- MODULE MC_Auto --------------------------------
(* The autocorrelogram is computed from the spectrum, exactly, modulo a prime P *)
(* that has roots of unity of the orders considered: transform, products with  *)
(* the conjugate (the opposite bin), completion of one-sided spectra, inverse  *)
(* transform, truncation. Variants: "half": missing bins are left out;         *)
(* "twice": the Nyquist bin is mirrored too.                                   *)
EXTENDS AutoOps, TLC
CONSTANTS P, Root, Order, Sizes, Vals, MaxLen, Variant
VARIABLES x, m, sided, stage, s
vars == <<x, m, sided, stage, s>>
RECURSIVE PowM(_, _)
PowM(b, e) == IF e = 0 THEN 1 ELSE (b * PowM(b, e - 1)) % P
\* root of unity of order m (a divisor of Order), and inverses modulo P
W(k) == PowM(Root, (Order \div m) * (k % m))
Inv(v) == PowM(v % P, P - 2)
Centre(v) == IF v > P \div 2 THEN v - P ELSE v
Transform(f, sign) == [k \in 1..m |->
  Sum([j \in 1..m |-> (At(f, j) * W(sign * (j - 1) * (k - 1))) % P]) % P]
Opp(k) == ((m - (k - 1)) % m) + 1
Init == /\ m \in Sizes
        /\ x \in UNION {[1..n -> Vals] : n \in 1..MaxLen} /\ Len(x) <= m
        /\ sided \in BOOLEAN /\ stage = "signal" /\ s = <<>>
Go(a, b, v) == stage = a /\ stage' = b /\ s' = v /\ UNCHANGED <<x, m, sided>>
Half == m \div 2 + 1
Next ==
  \/ Go("signal", "spectrum", Transform(x, 1))
  \/ Go("spectrum", "power", [k \in 1..m |-> (s[k] * s[Opp(k)]) % P])
  \/ Go("power", IF sided THEN "one" ELSE "two",
        IF sided THEN [k \in 1..Half |-> s[k]] ELSE s)
  \/ Go("one", "two", [k \in 1..m |-> IF k <= Half THEN s[k] ELSE
          IF Variant = "half" THEN 0 ELSE
          IF Variant = "twice" /\ m % 2 = 0 /\ k > 2
          THEN s[Opp(k - 1)] ELSE s[Opp(k)]])
  \/ Go("two", "done", [k \in 1..m |-> Centre((Transform(s, -1)[k] * Inv(m)) % P)])
Spec == Init /\ [][Next]_vars
Right == stage = "done" => s = Auto(x, m, m)
\* padded enough, nothing wraps around
Padded == stage = "done" /\ m >= 2 * Len(x) - 1 =>
  \A k \in 1..Len(x) : s[k] = Linear(x, k - 1)
Symmetric == stage = "done" => \A k \in 1..m : s[k] = s[Opp(k)]
Peak == stage = "done" => \A k \in 1..m : s[k] <= s[1]
\* the spectrum at zero is the square of the sum
Zero == stage = "power" => Centre(s[1]) = Centre((Sum(x) * Sum(x)) % P)
\* dividing the powers by m, but the one at zero by m^2, is Uniform
Scaled == stage = "done" =>
  Sum(Uniform(x, m, m)) = m * Sum(x) * Sum(x)
Lines == Len(x) > 1 => LET t == [j \in DOMAIN x |-> j * j]
                           r == Residual(t, x) IN Sum(r) = 0 /\ Dot(r, t) = 0
Bands == \A hp, lp \in 0..8 : LET b == Band(hp, lp, 2, 4) IN
  \A j \in 0..3 : j \in b <=> 2 * j >= hp /\ 2 * j < lp
================================================================================
