------------------------------- MODULE MC_Remap --------------------------------
(* Every combination of small given parameters and models.                     *)
EXTENDS RemapOps
CONSTANTS HopFromFFT   \* the hop is a fraction of the FFT size (defective)
VARIABLES g, m
Opt(S) == S \cup {-1}
Init == /\ g \in [logn : Opt(0..3), wtype : Opt({2}), wsize : Opt({0, 1, 7, 16}),
                  overlap : Opt({0, 5, 16, 20}), n : Opt({1, 6}),
                  w : Opt({3}), h : Opt({2})]
        /\ m \in [n : {4, 5}, w : {1, 4}, h : {1, 3}]
Next == UNCHANGED <<g, m>>
Computed == g.h = -1 /\ ~(g.overlap = -1 /\ Remapped(g, m).t = 0 /\ g.w = -1)
R == IF HopFromFFT /\ Computed
     THEN [Remapped(g, m) EXCEPT !.h = Hop(Remapped(g, m).n, g.overlap)]
     ELSE Remapped(g, m)
HopInWindow == (g.h = -1 /\ ~(g.overlap = -1 /\ R.t = 0 /\ g.w = -1)) =>
               1 <= R.h /\ (R.w >= 1 => R.h <= R.w)
WindowInFFT == (g.w = -1 /\ R.t # 0) => R.w <= R.n
Explicit == /\ g.n # -1 => R.n = g.n
            /\ g.w # -1 => R.w = g.w
            /\ g.h # -1 => R.h = g.h
Kept == (g.logn = -1 /\ g.wtype = -1 /\ g.wsize = -1 /\ g.n = -1 /\ g.w = -1) =>
        /\ R.n = m.n /\ R.w = m.w
        /\ (g.overlap = -1 /\ g.h = -1) => R.h = m.h
================================================================================
