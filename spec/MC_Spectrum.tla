------------------------------ MODULE MC_Spectrum ------------------------------
(* Frames of a tone of period N/K, in the field of P elements with a root G of *)
(* unity of order N: the spectrum at K has the level of the window and the     *)
(* phase of the tone in the middle of the frame.                               *)
EXTENDS SpectrumOps
CONSTANTS P, G, N, Hops, Frames, Variant
VARIABLES k, p, w, h, j, X
vars == <<k, p, w, h, j, X>>
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE (b * Pow(b, e - 1)) % P
Root(e) == Pow(G, e % N)
Tone(i) == Root(p + k * i)
Turned(x, ww) == CASE Variant = "front" ->
       [i \in 1..N |-> IF i <= Len(ww) THEN x[i] * ww[i] ELSE 0]
  [] Variant = "ceil" -> LET W == Len(ww)
                             c == (W + 1) \div 2 IN
       [i \in 1..N |-> IF i <= W - c THEN x[c + i] * ww[c + i]
                       ELSE IF i > N - c THEN x[i - N + c] * ww[i - N + c] ELSE 0]
  [] OTHER -> Buffer(x, ww, N)
Frame(start) == [i \in 1..Len(w) |-> Tone(start + i - 1)]
Dft(b) == [m \in 0..(N - 1) |->
  Sum([i \in 1..N |-> b[i] * Root(-m * (i - 1))]) % P]
Init == /\ k \in 0..(N - 1) /\ p \in {0, 1, 3} /\ h \in Hops /\ j = 0
        /\ \E W \in 2..N : w \in [1..W -> {1, 2}]
        /\ X = Dft(Turned(Frame(0), w))
Next == /\ j < Frames /\ j' = j + 1
        /\ X' = Dft(Turned(Frame((j + 1) * h), w))
        /\ UNCHANGED <<k, p, w, h>>
Spec == Init /\ [][Next]_vars
Measured == X[k] = (Sum(w) * Root(Phase(p, k, j * h, Len(w), N))) % P
\* a constant frame under a symmetric window of odd size has a real spectrum
Symmetric == \A i \in DOMAIN w : w[i] = w[Len(w) + 1 - i]
Real == (k = 0 /\ Symmetric /\ Len(w) % 2 = 1) => \A m \in 1..(N - 1) : X[m] = X[N - m]
================================================================================
