-------------------------------- MODULE BankOps --------------------------------
(* Convolution of a signal with a bank of responses.  A response has size taps *)
(* at the times -lead, 1 - lead, ... (in samples) and the bank is delayed so    *)
(* that time zero is at the same place, after the longest lead.                *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
MaxOf(S) == CHOOSE z \in S : \A q \in S : q <= z
MinOf(S) == CHOOSE z \in S : \A q \in S : z <= q
Leads(bank) == {bank[j].lead : j \in 1..Len(bank)}
Delay(bank, j) == MaxOf(Leads(bank)) - bank[j].lead
Length(bank, n) == n - 1 + MaxOf({bank[j].size + Delay(bank, j) : j \in 1..Len(bank)})
\* ceiling of z / s
Ceil(z, s) == (z + s - 1) \div s
Columns(bank, n, s) == Ceil(Length(bank, n), s)
\* sample k (from 0) of the convolution of x and the taps (from 1)
Conv(x, taps, k) ==
  LET lo == MaxOf({0, k - Len(taps) + 1}) hi == MinOf({k, Len(x) - 1}) IN
  SumTo([i \in 1..MaxOf({0, hi - lo + 1}) |-> x[lo + i] * taps[k - lo - i + 2]],
        MaxOf({0, hi - lo + 1}))
\* cell k (from 0) of a row of the matrix, every s-th sample
Cell(x, taps, delay, k, s) ==
  LET z == k * s - delay IN
  IF z < 0 \/ z > Len(x) + Len(taps) - 2 THEN 0 ELSE Conv(x, taps, z)
\* imaginary part of the analytic signal of four samples
Quarter(x) == [k \in 1..4 |-> (x[1 + ((k + 2) % 4)] - x[1 + (k % 4)]) \div 2]
================================================================================
