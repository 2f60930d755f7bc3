------------------------------- MODULE Framing -------------------------------
(* Cutting a signal of n samples into analysis frames.  Samples are           *)
(* identified by their position 1..n in the original signal, 0 is a padding   *)
(* zero.  k is a configuration [n, w, hop, padded, rev].                      *)
EXTENDS Integers, Sequences

PadL(k) == IF k.padded THEN (k.w + 1) \div 2 ELSE 0
PadR(k) == IF k.padded THEN k.w \div 2 ELSE 0
Total(k) == PadL(k) + k.n + PadR(k)
\* the analysed sequence
Sample(k, p) ==                                  \* position p = 1..Total
  LET i == p - PadL(k)
  IN IF i < 1 \/ i > k.n THEN 0 ELSE IF k.rev THEN k.n + 1 - i ELSE i
Analysed(k) == [p \in 1..Total(k) |-> Sample(k, p)]
NFrames(k) == IF Total(k) < k.w THEN 0 ELSE 1 + (Total(k) - k.w) \div k.hop
FrameAt(k, j) == [q \in 1..k.w |-> Sample(k, (j - 1) * k.hop + q)]
Frames(k) == [j \in 1..NFrames(k) |-> FrameAt(k, j)]
=============================================================================
