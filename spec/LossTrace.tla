------------------------------- MODULE LossTrace -------------------------------
(* One use of the real spectral losses. Kinds:                                  *)
(*  "lp" [x, y, p, got (distance to the power of p), intact]                    *)
(*  "tones" [c (which frames: [n, w, o]), u, v (magnitudes in hundredths, the   *)
(*    same in every frame), lu, lv (levels in dB, or far below any floor), fl,  *)
(*    p, lin, log (the two distances to the power of p, hundredths to the power *)
(*    of p), k, mix (8 times the whole loss for alpha = k/8, p = 1)]            *)
(*  "scaled" [c, pad, bins, e, got]: sounds which differ by e dB                *)
(*  "metric" [d: distances of x from y, y from x, x from x, and with a higher   *)
(*    floor, in millionths of the first, intact]                                *)
(*  "scales" [got, sum]: the multi-scale loss and the sum of losses             *)
EXTENDS LossOps, Batch
VARIABLES tid, done
vars == <<tid, done>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ done = FALSE
F == Frames(T.c.n, T.c.w, T.c.o)
Is(what, got, want) ==
  IF got = want THEN {} ELSE {what \o " " \o ToString(got) \o " instead of "
                              \o ToString(want)}
Lin == F * Dist(T.u, T.v, T.p)
Log == F * LevelDist(T.lu, T.lv, T.fl, T.p)
Bad ==
  IF T.err # "" THEN {"raised " \o T.err} ELSE
  CASE T.kind = "lp" -> Is("distance", T.got, Dist(T.x, T.y, T.p))
                        \cup Is("inputs kept", T.intact, TRUE)
    [] T.kind = "tones" ->
         Is("distance of magnitudes", T.lin, Lin)
         \cup Is("distance of levels", T.log, Log)
         \cup (IF T.p # 1 THEN {} ELSE Is("loss", T.mix, 8 * Lin + 100 * T.k * Log))
    [] T.kind = "scaled" ->
         Is("distance of levels", T.got,
            T.e * T.bins * (IF T.pad THEN FramesPadded(T.c.n, T.c.w, T.c.o)
                            ELSE F))
    [] T.kind = "metric" ->
         Is("distances", <<T.d[1], T.d[2], T.d[3]>>, <<1000000, 1000000, 0>>)
         \cup (IF T.d[4] <= 1000001 THEN {} ELSE {"a higher floor increases it"})
         \cup Is("inputs kept", T.intact, TRUE)
    [] T.kind = "scales" -> Is("loss", T.got, T.sum)
    [] OTHER -> {"unknown event"}
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ LET b == Bad IN Verdict(tid, b = {}, 1, T.kind \o ": " \o Join(b))
Spec == Init /\ [][Next]_vars
================================================================================
