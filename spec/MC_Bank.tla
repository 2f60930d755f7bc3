-------------------------------- MODULE MC_Bank --------------------------------
(* How the strided form works: the delay of a row is split in whole strides    *)
(* (at the output) and a residue (at the input), and windows are taken of a    *)
(* padded input.  Here only indices are followed: cell k of a row holds sample *)
(* z of that row's own convolution.  Every bank of up to two filters, signal   *)
(* length and stride.                                                          *)
EXTENDS BankOps
CONSTANTS MaxSize, MaxLead, MaxLen, MaxStride, Variant
VARIABLES bank, n, s, j, k, row
vars == <<bank, n, s, j, k, row>>
Filters == [lead : 0..MaxLead, size : 1..MaxSize]
Init == /\ bank \in {<<f>> : f \in Filters} \cup (Filters \X Filters)
        /\ n \in 1..MaxLen /\ s \in 1..MaxStride
        /\ j = 1 /\ k = 0 /\ row = <<>>
I == Length(bank, 1)                       \* room for all delayed responses
Size == bank[j].size
Whole == Delay(bank, j) \div s
Rest == IF Variant = "norest" THEN 0 ELSE Delay(bank, j) - Whole * s
Padded == n + 2 * (I - 1)
Begin == I - Size - Rest
InLen == MinOf({Padded - Begin, n + 2 * (Size - 1) +
                 (IF Variant = "tail" THEN 0 ELSE Rest)})
Wins == MaxOf({0, 1 + (InLen - Size) \div s})
\* which sample of the convolution a window is: the last of its inputs, in x
Sample(q) == Begin + q * s + Size - 1 - (I - 1)
\* cell of the matrix: a window, or nothing was written
Written == IF k < Whole \/ k >= Whole + Wins THEN <<>> ELSE <<Sample(k - Whole)>>
Cols == Columns(bank, n, s)
Fill == /\ j <= Len(bank) /\ k < Cols /\ k' = k + 1
        /\ row' = Append(row, Written) /\ UNCHANGED <<bank, n, s, j>>
NextRow == /\ j < Len(bank) /\ k = Cols /\ j' = j + 1 /\ k' = 0 /\ row' = <<>>
           /\ UNCHANGED <<bank, n, s>>
Next == Fill \/ NextRow
Spec == Init /\ [][Next]_vars
Aligned == \A q \in 1..Len(row) :
  LET z == (q - 1) * s - Delay(bank, j) IN
  IF z \in 0..(n + Size - 2) THEN row[q] = <<z>>
  ELSE row[q] = <<>> \/ row[q][1] \notin 0..(n + Size - 2)
InPad == Begin >= 0 /\ Begin + (Wins - 1) * s + Size <= Padded
Fits == Wins + Whole <= Cols
================================================================================
