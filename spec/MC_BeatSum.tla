------------------------------ MODULE MC_BeatSum ------------------------------
(* A time axis is walked quarter second by quarter second from any start: the  *)
(* phase is the initial one plus what was accumulated. Gaussian integers stand *)
(* for directions, so accumulated phase is exact.                              *)
EXTENDS BeatSumOps
CONSTANTS Amps, Freqs, Falls, Starts, Steps, Variant
VARIABLES p0, p1, first, now, dir
vars == <<p0, p1, first, now, dir>>
Last == Steps + CHOOSE s \in Starts : \A r \in Starts : r <= s
\* the partial t quarters later (amplitudes scaled to remain whole)
At(p, t) == [p EXCEPT !.q = p.q + p.f * t, !.a = p.a * 2 ^ (p.k * (Last - t))]
Z(t) == <<Re(At(p0, t), At(p1, t)), Im(At(p0, t), At(p1, t))>>
Times(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
Conj(x) == <<x[1], -x[2]>>
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
Reduce(x) == LET g == Gcd(Abs(x[1]), Abs(x[2])) IN
  <<x[1] \div g, x[2] \div g>>
Partial == [a : Amps, k : Falls, f : Freqs, q : 0..3]
Defined(t) == Z(t) # <<0, 0>>
Init == /\ p0 \in Partial /\ p1 \in Partial /\ first \in Starts /\ now = first
        /\ Defined(first)
        \* direction of the first sample
        /\ dir = LET z == Z(IF Variant = "zero" THEN 0 ELSE first) IN
                 IF z = <<0, 0>> THEN z ELSE Reduce(z)
Step == /\ now < first + Steps /\ now' = now + 1
        /\ Defined(now) /\ Defined(now + 1)
        \* add the change of phase between the two samples
        /\ dir' = LET d == Reduce(Times(Conj(Z(now)), Z(now + 1))) IN
             IF dir = <<0, 0>> THEN dir ELSE Reduce(Times(dir, d))
        /\ UNCHANGED <<p0, p1, first>>
Spec == Init /\ [][Step]_vars
U == At(p0, now)
V == At(p1, now)
SameDirection(x, y) == LET m == Times(x, Conj(y)) IN m[2] = 0 /\ m[1] > 0
\* the sound is that of the two partials wherever the axis starts
PhaseOfSum == Defined(now) => SameDirection(dir, Z(now))
Modulus == Am2(U, V) = Mod2(U, V)
Rate == FmTurn2(U, V) = 2 * ArgTurn(U, V) /\ ArgFall(U, V) = FmFall(U, V)
Commutes == /\ Am2(U, V) = Am2(V, U) /\ FmTurn2(U, V) = FmTurn2(V, U)
            /\ FmFall(U, V) = FmFall(V, U)
Single == V.a = 0 => Am2(U, V) = U.a * U.a /\ FmTurn2(U, V) = 2 * U.f * Am2(U, V)
================================================================================
