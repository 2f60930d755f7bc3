-------------------------------- MODULE AutoOps --------------------------------
(* Autocorrelograms of integer signals, and straight lines of least squares.   *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
Sum(f) == SumTo(f, Len(f))
At(x, j) == IF j \in DOMAIN x THEN x[j] ELSE 0
\* circular, over m samples (zero-padded)
Circular(x, m, k) == Sum([j \in 1..Len(x) |-> x[j] * At(x, ((j - 1 + k) % m) + 1)])
Linear(x, k) == Sum([j \in 1..Len(x) |-> x[j] * At(x, j + k)])
Auto(x, m, n) == [k \in 1..n |-> Circular(x, m, k - 1)]
\* complex signals: sum of conj(x[j]) x[j + k]
AutoRe(x, y, m, n) == [k \in 1..n |-> Circular(x, m, k - 1) + Circular(y, m, k - 1)]
Cross(x, y, m, k) == Sum([j \in 1..Len(x) |-> x[j] * At(y, ((j - 1 + k) % m) + 1)])
AutoIm(x, y, m, n) == [k \in 1..n |-> Cross(x, y, m, k - 1) - Cross(y, x, m, k - 1)]
\* spectrum of a uniformly sampled signal whose mean counts once: times m^3
Uniform(x, m, n) ==
  LET s == Sum(x) IN
    [k \in 1..n |-> m * m * Circular(x, m, k - 1) - m * s * s + s * s]
\* bins of a band: first not below each corner (corners are a/d bins)
Ceil(a, b) == -((-a) \div b)
Band(hp, lp, d, bins) == {j \in 0..(bins - 1) : j >= Ceil(hp, d) /\ j < Ceil(lp, d)}
\* residual of the line of least squares, times Den
Dot(x, y) == Sum([j \in DOMAIN x |-> x[j] * y[j]])
Den(x) == Len(x) * Dot(x, x) - Sum(x) * Sum(x)
Residual(x, y) ==
  LET n == Len(x)
      b == n * Dot(x, y) - Sum(x) * Sum(y)
      a == Dot(x, x) * Sum(y) - Sum(x) * Dot(x, y)
  IN [j \in 1..n |-> Den(x) * y[j] - a - b * x[j]]
================================================================================
