------------------------------ MODULE BeatSumOps ------------------------------
(* Two partials whose phases are whole numbers of quarter turns: every value   *)
(* is an integer. A partial is [a, k, f, q]: amplitude now, halvings per       *)
(* quarter second, frequency in Hz, quarter turns now.                         *)
EXTENDS Integers, Sequences, FiniteSets
Cos(q) == <<1, 0, -1, 0>>[(q % 4) + 1]
Sin(q) == Cos(q - 1)
\* the sum of the two as a Gaussian integer, and its derivative: the part that
\* turns (in units of 2 pi f) and the part that decays (in units of -4 ln 2)
Re(u, v) == u.a * Cos(u.q) + v.a * Cos(v.q)
Im(u, v) == u.a * Sin(u.q) + v.a * Sin(v.q)
TurnRe(u, v) == -(u.f * u.a * Sin(u.q) + v.f * v.a * Sin(v.q))
TurnIm(u, v) == u.f * u.a * Cos(u.q) + v.f * v.a * Cos(v.q)
FallRe(u, v) == u.k * u.a * Cos(u.q) + v.k * v.a * Cos(v.q)
FallIm(u, v) == u.k * u.a * Sin(u.q) + v.k * v.a * Sin(v.q)
\* from the definition: squared modulus, and derivative of the argument times it
Mod2(u, v) == Re(u, v) * Re(u, v) + Im(u, v) * Im(u, v)
ArgTurn(u, v) == Re(u, v) * TurnIm(u, v) - Im(u, v) * TurnRe(u, v)
ArgFall(u, v) == Re(u, v) * FallIm(u, v) - Im(u, v) * FallRe(u, v)
\* as published: modulation of the carrier with the semisums and semidifferences
D(u, v) == u.q - v.q
Am2(u, v) == u.a * u.a + v.a * v.a + 2 * u.a * v.a * Cos(D(u, v))
FmTurn2(u, v) ==      \* twice fm * am^2, in units of 2 pi
  (u.f + v.f) * Am2(u, v) + (u.a + v.a) * (u.a - v.a) * (u.f - v.f)
FmFall(u, v) == (u.k - v.k) * u.a * v.a * Sin(D(u, v))
================================================================================
