------------------------------- MODULE MC_Peaks -------------------------------
(* A scan that keeps only the last two comparisons finds exactly the peaks.   *)
EXTENDS Peaks
CONSTANTS MaxLen, Vals
VARIABLES x, hast, t, i, rising, found
vars == <<x, hast, t, i, rising, found>>
Init == /\ x \in UNION {[1..n -> Vals] : n \in 0..MaxLen}
        /\ hast \in BOOLEAN /\ t \in Vals
        /\ i = 1 /\ rising = FALSE /\ found = <<>>
Next == /\ i < Len(x)
        /\ rising' = (x[i + 1] > x[i])
        /\ found' = IF rising /\ x[i + 1] < x[i] /\ (~hast \/ x[i] > t)
                    THEN Append(found, i) ELSE found
        /\ i' = i + 1 /\ UNCHANGED <<x, hast, t>>
Spec == Init /\ [][Next]_vars
Exact == i >= Len(x) => found = PeakSeq(x, hast, t)
NoNeighbours == \A p \in Peaks(x, hast, t) : p + 1 \notin Peaks(x, hast, t)
HalfBin == \A p \in Peaks(x, hast, t) :
  /\ Curv(x, p) < 0
  /\ Abs0(Diff(x, p)) < Abs0(Curv(x, p))         \* strictly within half a bin
Vertex == \* the parabola of the fractions passes through the three points
  \A p \in Peaks(x, hast, t) :
    LET a2 == Curv(x, p) IN
    \* y(s) = x[p] - rise-form: 8 a2 y(s) with s relative to p, s = -1, 0, 1
    \A s \in {-1, 0, 1} :
      LET num == 2 * s * a2 - Diff(x, p)          \* 2 a2 (s - offset)
      IN num * num + 8 * a2 * x[p] - Diff(x, p) * Diff(x, p)
           = 8 * a2 * x[p + s]
===============================================================================
