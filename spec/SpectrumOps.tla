------------------------------ MODULE SpectrumOps ------------------------------
(* Spectra of windowed frames whose time origin is the middle of the window.   *)
EXTENDS Integers, Sequences, FiniteSets
Half(W) == W \div 2
\* what is transformed: the second half of the windowed frame at the start,
\* the first half at the end, zeros in between
Buffer(x, w, n) == LET W == Len(w)
                       h == Half(W) IN
  [i \in 1..n |-> IF i <= W - h THEN x[h + i] * w[h + i]
                  ELSE IF i > n - h THEN x[i - n + h] * w[i - n + h] ELSE 0]
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
Sum(f) == SumTo(f, Len(f))
\* circular autocorrelation
Auto(b) == LET n == Len(b) IN
  [d \in 1..n |-> Sum([i \in 1..n |-> b[i] * b[((i + d - 2) % n) + 1]])]
\* phases in n-ths of a turn
Phase(p, k, start, W, n) == (p + k * (start + Half(W))) % n
\* peaks of a sum of tones [k (bin), e (dB), p (phase)] in increasing order
Heard(tones, t2) == {i \in DOMAIN tones : 2 * tones[i].e > t2}
RECURSIVE Sorted(_)
Sorted(s) == IF s = {} THEN <<>> ELSE
  LET m == CHOOSE a \in s : \A b \in s : a.k <= b.k IN <<m>> \o Sorted(s \ {m})
Peaks(tones, t2, start, W, n) ==
  Sorted({[k |-> tones[i].k, e |-> tones[i].e,
           p |-> Phase(tones[i].p, tones[i].k, start, W, n)] : i \in Heard(tones, t2)})
\* a sound of N samples played backwards
Backwards(tones, N, n) == [i \in DOMAIN tones |->
  [tones[i] EXCEPT !.p = (-tones[i].p - tones[i].k * (N - 1)) % n]]
================================================================================
