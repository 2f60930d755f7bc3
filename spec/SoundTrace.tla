------------------------------ MODULE SoundTrace -------------------------------
(* Ranges of what was drawn, in thousandths (or as said), with a slack of one. *)
(* freqs: [f (3), fmin, fmax, beat, bmin, bmax, delta (bark), dmin, dmax]      *)
(* decays: [d (3), min, off (of the mean, percent)]  amps: [a (3), sum, least (of the greatest), only]     *)
(* two: [x, left, right, positive (0, 1, 2: either)]                           *)
(* audio: [n, size, off (difference with the declared sum, in noise levels)]   *)
EXTENDS Integers, Sequences, Batch
VARIABLES tid, done
vars == <<tid, done>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ done = FALSE
Abs(z) == IF z < 0 THEN -z ELSE z
In(z, l, h) == z >= l - 1 /\ z <= h + 1
Max(s) == CHOOSE z \in {s[j] : j \in 1..Len(s)} : \A j \in 1..Len(s) : s[j] <= z
Say(ok, what) == IF ok THEN {} ELSE {what}
Bad ==
  IF T.err # "" THEN {"raised " \o T.err} ELSE
  CASE T.kind = "freqs" ->
         Say(\A j \in 1..3 : In(T.f[j], T.fmin, T.fmax), "frequency " \o ToString(T.f))
         \cup Say(In(Abs(T.f[2] - T.f[1]), T.bmin, T.bmax) /\ T.f[2] - T.f[1] # 0,
                  "beat difference " \o ToString(T.f[2] - T.f[1]))
         \cup Say(In(Abs(T.delta), T.dmin, T.dmax), "difference " \o ToString(T.delta))
    [] T.kind = "decays" -> Say(\A j \in 1..3 : T.d[j] >= T.min - 1, "decays")
                            \cup Say(Abs(T.off) <= 17, "mean of decays")
    [] T.kind = "amps" ->
         Say(Abs(T.a[1] + T.a[2] + T.a[3] - T.sum) <= 3, "sum of the amplitudes")
         \cup Say(\A j \in 1..3 : (T.only /\ j = 3) \/
                    1000 * (T.a[j] + 1) >= T.least * (Max(T.a) - 1), "amplitude range")
         \cup Say(T.only => T.a[3] = 0, "the third partial sounds")
    [] T.kind = "two" ->
         Say(In(Abs(T.x), T.left, T.right), "value " \o ToString(T.x))
         \cup Say((T.positive = 1 => T.x >= 0) /\ (T.positive = 0 => T.x <= 0), "sign")
    [] OTHER -> Say(T.n = T.size, "samples " \o ToString(T.n))
                \cup Say(T.off <= 1, "not the declared sum")
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ LET b == Bad IN Verdict(tid, b = {}, 1, Join(b))
Spec == Init /\ [][Next]_vars
================================================================================
