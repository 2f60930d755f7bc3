-------------------------------- MODULE MelOps --------------------------------
(* Triangular filters over integer frequencies. Values are in units of 1/L,    *)
(* where L is divisible by every distance between a centre and its corners.    *)
EXTENDS Integers, Sequences, FiniteSets
\* a filter is <<lower corner, centre, upper corner>>
Tri(t, f, L) ==
  IF f <= t[1] \/ f >= t[3] THEN 0
  ELSE IF f <= t[2] THEN (L \div (t[2] - t[1])) * (f - t[1])
  ELSE (L \div (t[3] - t[2])) * (t[3] - f)
\* half-overlapping filters between given corners
Overlapped(c) == [k \in 1..(Len(c) - 2) |-> <<c[k], c[k + 1], c[k + 2]>>]
\* filters of given widths at half height around given centres
Banded(c, b) == [k \in 1..Len(c) |-> <<c[k] - b[k], c[k], c[k] + b[k]>>]
Bank(fs, freqs, L) ==
  [k \in 1..Len(fs) |-> [j \in 1..Len(freqs) |-> Tri(fs[k], freqs[j], L)]]
Centres(fs) == [k \in 1..Len(fs) |-> fs[k][2]]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Pow(_, _)
Pow(x, p) == IF p = 0 THEN 1 ELSE x * Pow(x, p - 1)
\* filter outputs: rows of the bank times one column, magnitudes raised to p
Applied(bank, col, p) ==
  [k \in 1..Len(bank) |-> Sum([j \in 1..Len(col) |-> bank[k][j] * Pow(col[j], p)])]
================================================================================
