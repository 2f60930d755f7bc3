-------------------------------- MODULE ResidOps -------------------------------
(* What the regressions of beats minimise: how far the amplitude of a track     *)
(* (and its frequency, kept within a number of interquartile ranges) is from    *)
(* that of the sum of two partials, at the times of the track.                  *)
EXTENDS BeatSumOps
Abs(a) == IF a < 0 THEN -a ELSE a
\* amplitude, when the partials are in phase or in opposition
Level(u, v) == Abs(u.a + v.a * Cos(D(u, v)))
\* frequency in units of 1/n Hz, when levels do not fall
Freq(u, v, n) == Abs((n * FmTurn2(u, v)) \div (2 * Am2(u, v)))
RECURSIVE Sorted(_)
Sorted(q) == IF q = <<>> THEN <<>> ELSE
  LET i == CHOOSE i \in 1..Len(q) : \A j \in 1..Len(q) : q[i] <= q[j] IN
  <<q[i]>> \o Sorted(SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q)))
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
\* a list of 4 m + 1 values, kept within c / 4 interquartile ranges around the
\* median (c < 0: as they are)
Kept(q, c) ==
  IF c < 0 THEN q ELSE
  LET s == Sorted(q) m == (Len(q) - 1) \div 4
      mid == s[2 * m + 1]
      r == (c * (s[3 * m + 1] - s[m + 1])) \div 8 IN
  [i \in 1..Len(q) |-> Max2(mid - r, Min2(mid + r, q[i]))]
================================================================================
