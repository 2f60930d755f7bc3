-------------------------------- MODULE Peaks --------------------------------
(* Peaks of a sequence x (indices 1..Len) and their parabolic refinement in    *)
(* integer arithmetic.  hast/t: optional threshold.                           *)
EXTENDS Integers, Sequences, FiniteSets

IsPeak(x, hast, t, i) ==
  /\ i > 1 /\ i < Len(x)
  /\ x[i] > x[i - 1] /\ x[i] > x[i + 1]
  /\ hast => x[i] > t
Peaks(x, hast, t) == {i \in DOMAIN x : IsPeak(x, hast, t, i)}
RECURSIVE Inc(_)
Inc(S) == IF S = {} THEN <<>>
          ELSE LET m == CHOOSE a \in S : \A b \in S : a <= b
               IN <<m>> \o Inc(S \ {m})
PeakSeq(x, hast, t) == Inc(Peaks(x, hast, t))

\* vertex of the parabola through i-1, i, i+1: offset Num/Den from i, height
\* x[i] - Num^2 / (4 Curv) ... as fractions
Curv(x, i) == x[i-1] - 2 * x[i] + x[i+1]        \* < 0 at a peak
Diff(x, i) == x[i-1] - x[i+1]
\* offset = Diff / (2 Curv);  rise = - Diff^2 / (8 Curv)
Abs0(v) == IF v < 0 THEN -v ELSE v

\* |q/scale - (base + num/den)| <= tol/scale
Near(q, scale, base, num, den, tol) ==
  Abs0((q - base * scale) * den - num * scale) <= tol * Abs0(den)

\* phase interpolated linearly at the refined location
PhaseNear(ph, x, i, q, scale, tol) ==
  LET d == Diff(x, i)
      c2 == 2 * Curv(x, i)
      right == d * c2 > 0                        \* offset is positive
      j == IF right THEN i + 1 ELSE i - 1
      \* ph[i] + |offset| * (ph[j] - ph[i])
  IN Near(q, scale, ph[i], Abs0(d) * (ph[j] - ph[i]), Abs0(c2), tol)
=============================================================================
