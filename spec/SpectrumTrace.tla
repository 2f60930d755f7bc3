----------------------------- MODULE SpectrumTrace -----------------------------
(* One analysis by the real code. kind:                                        *)
(* "dft": x, w (integers), n; got (signal of the spectrum), auto (that of its  *)
(*   magnitudes), bins, smooth (no phase jumps by more than half a turn)       *)
(* "tones": tones: [k, e, p], t2 (twice the threshold), N, W, n, h, pad (zeros *)
(*   before), rev, got: per frame [k, e, p], extra: rate (Hz per bin) seen     *)
(* "between": the same, k in 64ths of bins, e in tenths of dB, p in turn-ths   *)
(*   of a turn, each within sk, se, sp                                         *)
EXTENDS SpectrumOps, Batch
VARIABLES tid, done
vars == <<tid, done>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ done = FALSE
Is(got, want, what) == IF got = want THEN {} ELSE
  {what \o " " \o ToString(got) \o " instead of " \o ToString(want)}
Dft == LET b == Buffer(T.x, T.w, T.n) IN
  Is(T.got, b, "signal") \cup Is(T.auto, Auto(b), "power")
  \cup Is(T.bins, T.n \div 2 + 1, "bins")
  \cup (IF T.smooth THEN {} ELSE {"phase jumps"})
Start(j) == (j - 1) * T.h - T.pad
Whole(j) == Start(j) >= 0 /\ Start(j) + T.W <= T.N
Sound == IF T.rev THEN Backwards(T.tones, T.N, T.n) ELSE T.tones
Tones == UNION {IF ~Whole(j) THEN {} ELSE
  Is(T.got[j], Peaks(Sound, T.t2, Start(j), T.W, T.n), "frame " \o ToString(j)) :
  j \in DOMAIN T.got}
  \cup (IF T.intact THEN {} ELSE {"changed the sound"})
\* measured within tolerances
Apart(a, b) == LET d == (a - b) % T.turn IN IF 2 * d > T.turn THEN T.turn - d ELSE d
Abs(v) == IF v < 0 THEN -v ELSE v
Like(got, want) == Len(got) = Len(want) /\ \A i \in DOMAIN got :
  /\ Abs(got[i].k - want[i].k) <= T.sk
  /\ Abs(got[i].e - want[i].e) <= T.se
  /\ Apart(got[i].p, want[i].p) <= T.sp
Between == LET sound == IF T.rev THEN Backwards(T.tones, T.N, T.turn) ELSE T.tones IN
  UNION {IF ~Whole(j) THEN {} ELSE
    LET want == Peaks(sound, T.t2, Start(j), T.W, T.turn) IN
    IF Like(T.got[j], want) THEN {} ELSE Is(T.got[j], want, "frame " \o ToString(j)) :
    j \in DOMAIN T.got}
  \cup (IF T.intact THEN {} ELSE {"changed the sound"})
Bad == IF T.err # "" THEN {"raised " \o T.err} ELSE
  IF T.kind = "dft" THEN Dft ELSE IF T.kind = "tones" THEN Tones ELSE Between
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ LET b == Bad IN Verdict(tid, b = {}, 1, Join(b))
Spec == Init /\ [][Next]_vars
================================================================================
