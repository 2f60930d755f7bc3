------------------------------- MODULE AutoTrace -------------------------------
(* One call of the real code. kind:                                            *)
(* "real", "complex": x (and imaginary parts y), m (FFT size), n, re, im       *)
(* "uniform": x at m uniform times, n, re (times m^3)                          *)
(* "band": corners hp, lp in units of 1/d bins (-1: none), full: number of     *)
(*   bins, zero: bins that are zero, same: bins equal to those without band;   *)
(*   freqs: in units of 1/m of the sampling frequency                          *)
(* "size": last (time of the last sample, units of 1/u samples), u, len, same  *)
(*   (as with explicit sizes)                                                  *)
(* "line": x, y, got (residual times Den)                                      *)
(* "bins": f (in units of 1/d bins), d, up (bins), back (their frequencies)    *)
EXTENDS AutoOps, Batch
VARIABLES tid, done
vars == <<tid, done>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ done = FALSE
Is(got, want, what) == IF got = want THEN {} ELSE
  {what \o " " \o ToString(got) \o " instead of " \o ToString(want)}
Rng(s) == {s[j] : j \in DOMAIN s}
InBand == Band(IF T.hp < 0 THEN 0 ELSE T.hp,
               IF T.lp < 0 THEN T.d * (T.full + 1) ELSE T.lp, T.d, T.full)
Bad == IF T.err # "" THEN {"raised " \o T.err} ELSE
  CASE T.kind = "real" -> Is(T.re, Auto(T.x, T.m, T.n), "autocorrelogram")
    [] T.kind = "complex" ->
       Is(T.re, AutoRe(T.x, T.y, T.m, T.n), "autocorrelogram")
       \cup Is(T.im, AutoIm(T.x, T.y, T.m, T.n), "imaginary part")
    [] T.kind = "uniform" -> Is(T.re, Uniform(T.x, T.m, T.n), "autocorrelogram")
    [] T.kind = "band" ->
       Is(Rng(T.same), InBand, "bins in the band")
       \cup Is(Rng(T.zero), (0..(T.full - 1)) \ InBand, "bins out of the band")
       \cup Is(T.freqs, [k \in 1..T.full |-> k - 1], "frequencies")
    [] T.kind = "size" -> Is(T.len, Ceil(T.last, T.u), "length")
                          \cup (IF T.same THEN {} ELSE {"values differ"})
    [] T.kind = "line" -> Is(T.got, Residual(T.x, T.y), "residual")
    [] OTHER -> Is(T.up, [k \in DOMAIN T.f |-> Ceil(T.f[k], T.d)], "bins")
                \cup Is(T.back, T.up, "frequencies of bins")
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ LET b == Bad IN Verdict(tid, b = {}, 1, Join(b))
Spec == Init /\ [][Next]_vars
================================================================================
