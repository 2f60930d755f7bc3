------------------------------- MODULE OnsetOps --------------------------------
(* Local maxima and the onset selection rule of Dixon, over integers.          *)
(* The selection normalises: mean 0, standard deviation 1 (a constant signal   *)
(* becomes zero).  All comparisons are homogeneous, hence y = n x - sum x is   *)
(* used, whose deviation is the root of V = n sum x^2 - (sum x)^2.             *)
(* Feedback is a/4, offset is d/2.  Positions are counted from 1.              *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Sum(_, _, _)
Sum(f, l, h) == IF l > h THEN 0 ELSE f[l] + Sum(f, l + 1, h)
Abs(z) == IF z < 0 THEN -z ELSE z
Max2(p, q) == IF p < q THEN q ELSE p
\* i is a local maximum of x, with radius w, over the key
LocalMax(x, key, w, i) ==
  /\ i - w >= 1 /\ i + w <= Len(x)
  /\ \A j \in (i - w)..(i + w) : x[i] >= key[j]
Maxima(x, key, w) == {i \in 1..Len(x) : LocalMax(x, key, w, i)}
Centred(x) == LET s == Sum(x, 1, Len(x)) IN [i \in 1..Len(x) |-> Len(x) * x[i] - s]
Variance(x) == LET s == Sum(x, 1, Len(x)) IN
  Len(x) * Sum([i \in 1..Len(x) |-> x[i] * x[i]], 1, Len(x)) - s * s
\* adaptive envelope, as intervals of 1/K wide enough for the rounding
Down(z, k) == z \div k
Up(z, k) == -((-z) \div k)
RECURSIVE Env(_, _, _, _)
Env(y, a, K, i) ==
  IF i = 0 THEN <<0, 0>> ELSE
  LET g == Env(y, a, K, i - 1) f == y[i] * K IN
  <<Max2(f, Down(a * g[1] + (4 - a) * f, 4)),
    Max2(f, Up(a * g[2] + (4 - a) * f, 4))>>
\* the average of y over the window around i, as <<sum, count>>
Mean(y, w, m, i) ==
  IF i - m * w >= 1 /\ i + w <= Len(y)
  THEN <<Sum(y, i - m * w, i + w), (m + 1) * w + 1>> ELSE <<0, 1>>
\* sign of y[i] - (mean + d/2 deviations)
Sign(z) == IF z < 0 THEN -1 ELSE IF z = 0 THEN 0 ELSE 1
OverMean(y, V, w, m, d, i) ==
  LET mn == Mean(y, w, m, i)
      l == 2 * (y[i] * mn[2] - mn[1])
      dev == IF V = 0 THEN 1 ELSE V            \* a constant is not scaled
      r2 == d * d * mn[2] * mn[2] * dev
  IN IF Sign(l) # Sign(d) THEN Sign(Sign(l) - Sign(d))
     ELSE Sign(l) * Sign(l * l - r2)
\* sign of y[i] - previous envelope, 2 where the rounding decides
OverEnv(y, a, K, i) ==
  IF i = 1 THEN 1 ELSE
  LET g == Env(y, a, K, i - 1) f == y[i] * K IN
  IF f > g[2] THEN 1 ELSE IF f < g[1] THEN -1
  ELSE IF g[1] = g[2] THEN 0 ELSE 2
Passes(s, exact) == s = 1 \/ (exact /\ s = 0)      \* certainly
Could(s, exact) == s \in {1, 2} \/ s = 0           \* possibly
Certain(x, w, m, a, d, K, exact) ==
  LET y == Centred(x) V == Variance(x) IN
  {i \in Maxima(x, x, w) : /\ Passes(OverEnv(y, a, K, i), exact)
                           /\ Passes(OverMean(y, V, w, m, d, i), exact)}
Possible(x, w, m, a, d, K, exact) ==
  LET y == Centred(x) V == Variance(x) IN
  {i \in Maxima(x, x, w) : /\ Could(OverEnv(y, a, K, i), exact)
                           /\ Could(OverMean(y, V, w, m, d, i), exact)}
\* where a position of the detection function is in the audio (from 0)
Place(i, n, size) == ((i - 1) * size) \div n
Pos(z) == IF z > 0 THEN z ELSE 0
\* sum over the bins (rows) of the increases from frame t to t + 1
Flux(mat, t) ==
  Sum([b \in 1..Len(mat) |-> Pos(mat[b][t + 1] - mat[b][t])], 1, Len(mat))
================================================================================
