-------------------------------- MODULE BeatOps --------------------------------
(* The eight parameters of a beat: a0 a1 f0 f1 d0 d1 p0 p1.                    *)
EXTENDS Integers, Sequences, FiniteSets
Turn(p) == <<p[2], p[1], p[4], p[3], p[6], p[5], p[8], p[7]>>
\* the other association: frequencies and phases are exchanged
Other(p) == <<p[1], p[2], p[4], p[3], p[5], p[6], p[8], p[7]>>
Partial(p, k) == [a |-> p[k], f |-> p[k + 2], d |-> p[k + 4], ph |-> p[k + 6]]
Partials(p) == <<Partial(p, 1), Partial(p, 2)>>
\* energy of a partial but for a constant
Energy(p, k) == p[k] * p[k] * p[k + 4]
\* the results allowed: k1, k2 are the keys of the two partials
Sorted(p, k1, k2, descending) ==
  IF k1 = k2 THEN {p, Turn(p)}
  ELSE IF (k1 < k2) = ~descending THEN {p} ELSE {Turn(p)}
\* residuals r1 of p and r2 of the other association
Chosen(p, r1, r2) ==
  IF r1 < r2 THEN {p} ELSE IF r2 < r1 THEN {Other(p)} ELSE {p, Other(p)}
================================================================================
