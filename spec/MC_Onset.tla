------------------------------- MODULE MC_Onset --------------------------------
(* Every short sequence, radius, multiplier, feedback and offset; the state    *)
(* grows the sequence so that every prefix is examined too.                    *)
EXTENDS OnsetOps
CONSTANTS MaxLen, Values
VARIABLES x, w, m, a, d
vars == <<x, w, m, a, d>>
Init == /\ x = <<>> /\ w \in 0..2 /\ m \in 0..2 /\ a \in {0, 2, 3, 4}
        /\ d \in -1..3
Next == /\ Len(x) < MaxLen /\ \E v \in Values : x' = Append(x, v)
        /\ UNCHANGED <<w, m, a, d>>
Spec == Init /\ [][Next]_vars
N == Len(x)
K == 1024
S(z) == Certain(z, w, m, a, d, K, TRUE)
\* the intervals are exact here
Exact == \A i \in 1..N : OverEnv(Centred(x), a, K, i) # 2
Decided == S(x) = Possible(x, w, m, a, d, K, TRUE)
OnlyMaxima == S(x) \subseteq Maxima(x, x, w)
\* no two different onsets in the same window unless they are as high
Apart == \A i, j \in S(x) : Abs(i - j) <= w => x[i] = x[j]
Inside == \A i \in S(x) : i > w /\ i <= N - w
Higher == Certain(x, w, m, a, d + 1, K, TRUE) \subseteq S(x)
Shifted == S([i \in 1..N |-> x[i] + 3]) = S(x)
Scaled == S([i \in 1..N |-> 2 * x[i]]) = S(x)
Wider == Maxima(x, x, w + 1) \subseteq Maxima(x, x, w)
\* the envelope never falls below the signal, hence with feedback 1 or less
\* only rises are onsets
Rising == \A i \in S(x) : i > 1 => Centred(x)[i] >= Centred(x)[i - 1]
Constant == Variance(x) = 0 =>
  S(x) = IF d <= 0 THEN {i \in 1..N : i > w /\ i <= N - w} ELSE {}
Placed == \A i \in 1..N, size \in {1, N, 3 * N + 1} :
            Place(i, N, size) \in 0..(size - 1)
\* defects: each has to be told apart by some short sequence
Strict(i) == \A j \in (i - w)..(i + w) : j # i => x[i] > x[j]
DefStrict == \A i \in Maxima(x, x, w) : Strict(i)
DefLeft == \A i \in (1 + w)..(N - w) :
  (\A j \in (i - w)..i : x[i] >= x[j]) => i \in Maxima(x, x, w)
DefCurrent == \A i \in 1..N : LET y == Centred(x) IN
  (OverEnv(y, a, K, i) >= 0) = (y[i] * K >= Env(y, a, K, i)[1])
DefSymmetric == \A i \in 1..N : LET y == Centred(x) IN
  (OverMean(y, Variance(x), w, m, d, i) >= 0)
  = (OverMean(y, Variance(x), w, 1, d, i) >= 0)
DefEnvelope == \A i \in Maxima(x, x, w) :
  OverMean(Centred(x), Variance(x), w, m, d, i) >= 0 => i \in S(x)
================================================================================
