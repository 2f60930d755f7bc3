------------------------------- MODULE TimeAxis -------------------------------
(* What a regression receives for a track, and the mode it yields.            *)
(* Configuration k: [h, w, n, padded, rev, reduce]; all times in units of     *)
(* half a sample, so that half a window is an integer.                        *)
(* A track is [start, pts], a point [f, m], the gap point has m = Nil.        *)
EXTENDS Integers, Sequences, FiniteSets

Nil == -888888888
\* time of frame i in half samples
FrameTime(k, i) ==
  LET t == 2 * i * k.h + (IF k.padded THEN 0 ELSE k.w)
  IN IF k.rev THEN 2 * k.n - t ELSE t

RealIdx(t) == SelectSeq([i \in DOMAIN t.pts |-> i], LAMBDA i : t.pts[i].m # Nil)
Times(k, t) == [j \in DOMAIN RealIdx(t) |->
                  FrameTime(k, t.start + RealIdx(t)[j] - 1)]
Levels(t) == [j \in DOMAIN RealIdx(t) |-> t.pts[RealIdx(t)[j]].m]
Freqs(t) == [j \in DOMAIN RealIdx(t) |-> t.pts[RealIdx(t)[j]].f]

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
MaxOf(s) == CHOOSE x \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : s[i] <= x
MinOf(s) == CHOOSE x \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : s[i] >= x
\* "mean" is reported times the number of points
Reduce(k, s) == CASE k.reduce = "mean" -> Sum(s)
                  [] k.reduce = "max" -> MaxOf(s)
                  [] k.reduce = "min" -> MinOf(s)
                  [] k.reduce = "first" -> s[1]

\* the injected regressor's slope and intercept
Slope(y) == IF Len(y) % 4 = 3 THEN 0 ELSE -(1 + Len(y))
Icpt(y) == y[1]

\* modes in track order; a mode without finite decay is left out
ModeOf(k, t) == [f |-> Reduce(k, Freqs(t)), k |-> Slope(Levels(t)),
                 q |-> Icpt(Levels(t))]
Modes(k, ts) == LET ok == SelectSeq(ts, LAMBDA t : Slope(Levels(t)) # 0)
                IN [j \in DOMAIN ok |-> ModeOf(k, ok[j])]
=============================================================================
