------------------------------- MODULE MC_Start -------------------------------
(* Where the regressions of a track start and between which bounds. A track    *)
(* has integer levels, amplitudes and frequencies at integer times. Rational   *)
(* values are kept as numerators over Den (slope, intercept) or N (means).     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Frames, Levels, Freqs, Beats, Const, Slowest, Variant
VARIABLES y, f, am, a0, pos, cost
vars == <<y, f, am, a0, pos, cost>>
N == Frames
Idx == 1..N
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Map(s, Op(_, _)) == [j \in DOMAIN s |-> Op(s[j], j - 1)]
Max(S) == CHOOSE x \in S : \A z \in S : z <= x
Min(S) == CHOOSE x \in S : \A z \in S : x <= z
Rng(s) == {s[j] : j \in DOMAIN s}
Abs(x) == IF x < 0 THEN -x ELSE x
T == [j \in Idx |-> j - 1]
\* least squares line
Den == N * Sum(Map(T, LAMBDA v, j : v * v)) - Sum(T) * Sum(T)
K(s) == N * Sum(Map(s, LAMBDA v, j : v * j)) - Sum(T) * Sum(s)
Q(s) == Sum(s) * Sum(Map(T, LAMBDA v, j : v * v))
        - Sum(T) * Sum(Map(s, LAMBDA v, j : v * j))
\* --- hinge: knee (halves), slope, intercept (over Den) ---
Hinge(s) ==
  LET k == K(s) q == Q(s)
      dq == LET m == Max({Abs(Den * v - q) : v \in Rng(s)}) IN
            IF m = 0 THEN Den ELSE m
  IN [lo |-> <<0, IF k = 0 THEN -Den ELSE IF k < 0 THEN 8 * k ELSE k, q - dq>>,
      st |-> <<N - 1, k, q>>,
      hi |-> <<2 * (N - 1), IF k = 0 THEN Den ELSE IF k < 0 THEN k ELSE 8 * k, q + dq>>]
\* --- beats: frequency (over N) and decay (over -K) ---
Freq(s, m) ==
  LET d == Max(Rng(s)) - Min(Rng(s))
      w == IF d = 0 THEN (IF Variant = "narrow" THEN 0 ELSE N) ELSE N * (IF d < 1 THEN d ELSE 1)
      st == <<Sum(s) + N * m, Sum(s) - N * m>>
  IN [lo |-> Min({N * Min(Rng(s)), st[2]}) - w, st |-> st,
      hi |-> Max({N * Max(Rng(s)), st[1]}) + w]
\* decay as a fraction <<numerator, positive denominator>>
Decay(s) ==
  LET k == K(s) IN
  IF Variant # "decaying" /\ (k >= 0 \/ Const * Den >= -k * Slowest)
  THEN <<2 * Slowest - 1, 2>>
  ELSE IF k = 0 THEN <<1, 0>> ELSE IF k < 0 THEN <<Const * Den, -k>> ELSE <<-Const * Den, k>>
\* amplitudes: the start may be anything positive (extrapolated to time zero)
Amp(s, p) ==
  LET lo == Min(Rng(s)) hi == Max(Rng(s)) IN
  IF lo = hi THEN [lo |-> 0, st |-> hi \div 2, hi |-> hi]
  ELSE LET m == Min({lo, p}) x == Max({hi, p}) IN
       [lo |-> Max({0, m - (x - m)}), st |-> p, hi |-> x + (x - m)]
Lin(s) == [j \in DOMAIN s |-> 2 * (1 + s[j] - Min(Levels))]
Init == /\ y \in [Idx -> Levels] /\ f \in [Idx -> Freqs] /\ am \in Beats
        /\ a0 \in 1..(2 * Cardinality(Levels) + 2)
        /\ pos = Hinge(y).st /\ cost = 2
\* the search: moves within the bounds that lower the cost
Move == /\ am = Min(Beats) /\ a0 = 1 /\ f = [j \in Idx |-> Min(Freqs)]
        /\ cost > 0 /\ cost' \in 0..(cost - 1)
        /\ \E j \in 1..3 : \E v \in {Hinge(y).lo[j], Hinge(y).st[j], Hinge(y).hi[j]} :
             pos' = [pos EXCEPT ![j] = IF Variant = "free" THEN v + 1 ELSE v]
        /\ UNCHANGED <<y, f, am, a0>>
Spec == Init /\ [][Move]_vars
HingeFeasible == LET h == Hinge(y) IN
  \A j \in 1..3 : h.lo[j] <= h.st[j] /\ h.st[j] <= h.hi[j] /\ h.lo[j] < h.hi[j]
Inside == \A j \in 1..3 : Hinge(y).lo[j] <= pos[j] /\ pos[j] <= Hinge(y).hi[j]
NoWorse == cost <= 2
FreqFeasible == LET b == Freq(f, am) IN
  /\ \A j \in 1..2 : b.lo < b.st[j] /\ b.st[j] < b.hi
  /\ \A v \in Rng(f) : b.lo <= N * v /\ N * v <= b.hi
DecayFeasible == LET d == Decay(y) IN
  d[2] > 0 /\ d[1] > 0 /\ d[1] < Slowest * d[2]
AmpFeasible == LET b == Amp(Lin(y), a0) IN
  /\ 0 <= b.lo /\ b.lo < b.st /\ b.st < b.hi
  /\ \A v \in Rng(Lin(y)) : b.lo <= v /\ v <= b.hi
================================================================================
