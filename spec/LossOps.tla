-------------------------------- MODULE LossOps --------------------------------
(* Distance of two spectrograms: the distance of magnitudes plus alpha times    *)
(* that of levels in decibels, which are at least a floor.                      *)
EXTENDS Integers, Sequences
Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Pow(_, _)
Pow(a, p) == IF p = 0 THEN 1 ELSE a * Pow(a, p - 1)
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE q[1] + SumSeq(Tail(q))
Max2(a, b) == IF a > b THEN a ELSE b
\* distance, to the power of p
Dist(u, v, p) == SumSeq([i \in 1..Len(u) |-> Pow(Abs(u[i] - v[i]), p)])
Floored(v, fl) == [i \in 1..Len(v) |-> Max2(v[i], fl)]
LevelDist(u, v, fl, p) == Dist(Floored(u, fl), Floored(v, fl), p)
\* number of frames of w samples in n, sharing o of them
Frames(n, w, o) == 1 + (n - w) \div (w - o)
\* the same, where half a window of zeros is before and after, and zeros
\* complete the last frame
FramesPadded(n, w, o) ==
  LET m == n + 2 * (w \div 2) - w IN 1 + (m + w - o - 1) \div (w - o)
================================================================================
