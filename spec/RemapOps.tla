------------------------------- MODULE RemapOps --------------------------------
(* The STFT parameters which result from the ones given and from those of the *)
(* model: FFT size n, window (size w and kind t) and hop h. Fractions are in   *)
(* sixteenths; -1 stands for absent, kind 0 for the model's own window and     *)
(* kind 1 for the default one.                                                *)
EXTENDS Integers
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Hop(w, overlap) ==
  LET o == IF overlap = -1 THEN 8 ELSE overlap IN
  Max(Min(((16 - o) * w) \div 16, w), 1)
\* g: [logn, wtype, wsize, overlap, n, w, h] as given; m: [n, w, h] of the model
\* the parameters that the default remapping leaves
Remapped(g, m) ==
  LET keepn == g.logn = -1 /\ g.n = -1
      keepw == keepn /\ g.wtype = -1 /\ g.wsize = -1 /\ g.w = -1
      keeph == keepw /\ g.overlap = -1 /\ g.h = -1
      n == IF g.n # -1 THEN g.n ELSE IF g.logn # -1 THEN Pow2(g.logn) ELSE m.n
      w == IF g.w # -1 THEN g.w ELSE IF keepw THEN m.w
           ELSE (n * (IF g.wsize = -1 THEN 16 ELSE g.wsize)) \div 16
      t == IF g.w # -1 \/ keepw THEN 0
           ELSE IF g.wtype = -1 THEN 1 ELSE g.wtype
      h == IF g.h # -1 THEN g.h ELSE IF keeph THEN m.h ELSE Hop(w, g.overlap)
  IN [n |-> n, w |-> w, t |-> t, h |-> h]
\* without remapping only what is given changes
Plain(g, m) ==
  [n |-> IF g.n = -1 THEN m.n ELSE g.n, w |-> IF g.w = -1 THEN m.w ELSE g.w,
   t |-> 0, h |-> IF g.h = -1 THEN m.h ELSE g.h]
================================================================================
