-------------------------------- MODULE MC_Mel --------------------------------
(* The frequency axis is swept upwards; at most two filters are open: the one  *)
(* that rises and the one that falls. A filter opens at its lower corner, and  *)
(* the one below closes at the centre of the next.                             *)
EXTENDS MelOps
CONSTANTS Top, Corners, Widths, L, Variant
VARIABLES mode, c, b, f, rise, out
vars == <<mode, c, b, f, rise, out>>
Increasing(s) == \A i, j \in DOMAIN s : i < j => s[i] < s[j]
Filters == IF mode = "corners" THEN Overlapped(c) ELSE Banded(c, b)
Init == /\ mode \in {"corners", "band"}
        /\ c \in {s \in UNION {[1..n -> 0..Top] : n \in 1..Corners} : Increasing(s)}
        /\ mode = "corners" => Len(c) >= 3
        /\ b \in IF mode = "band" THEN [DOMAIN c -> Widths] ELSE {<<>>}
        /\ f = -5 /\ rise = 0 /\ out = [k \in DOMAIN Filters |-> 0]
N == Len(Filters)
\* corners: index of the segment between two corners that contains f
Segment(x) == Cardinality({i \in DOMAIN c : c[i] <= x})
Swept(x) ==
  IF mode = "band" THEN [k \in 1..N |-> Tri(Filters[k], x, L)]
  ELSE LET s == Segment(x)
           w == c[s + 1] - c[s]
           up == (L \div w) * (x - c[s])
       IN IF s = 0 \/ s = Len(c) THEN [k \in 1..N |-> 0]
          ELSE [k \in 1..N |->
            IF k = s THEN (IF Variant = "late" /\ k > 1 THEN 0 ELSE up)
            ELSE IF k = s - 1 THEN L - up ELSE 0]
Step == /\ f < Top + 2 /\ f' = f + 1 /\ rise' = Segment(f + 1)
        /\ out' = Swept(f + 1)
        /\ UNCHANGED <<mode, c, b>>
Spec == Init /\ [][Step]_vars
SameAsTriangles == out = [k \in 1..N |-> Tri(Filters[k], f, L)]
Partition == mode = "corners" /\ N > 0 /\ f >= c[2] /\ f <= c[Len(c) - 1] => Sum(out) = L
AtMostTwo == mode = "corners" => Cardinality({k \in 1..N : out[k] # 0}) <= 2
Peak == \A k \in 1..N : out[k] <= L /\ (out[k] = L <=> f = Filters[k][2])
Support == \A k \in 1..N : out[k] # 0 <=> f > Filters[k][1] /\ f < Filters[k][3]
\* width at half height
Half == mode = "band" => \A k \in 1..N :
  2 * (IF f > c[k] THEN f - c[k] ELSE c[k] - f) = b[k] => 2 * out[k] = L
Rising == rise >= 0 /\ (mode = "corners" => rise <= Len(c))
================================================================================
