-------------------------------- MODULE MC_Gamma -------------------------------
(* A filter is configured by any sequence of assignments. Variants: "kept":    *)
(* the delay is computed when the filter is made; "late": assigning a group     *)
(* delay keeps the delay relative to the peak.                                 *)
EXTENDS GammaOps
CONSTANTS Gs, Ns, Widths, Delays, Steps, Variant
VARIABLES s, first, lastgd, i
vars == <<s, first, lastgd, i>>
Opts(v) == {None, Fn} \cup {Num(x) : x \in v}
Init == /\ s \in [g : Gs, n : Ns, bw : Opts(Widths), tc : Opts(Delays),
                  phi : {None}, a : {None}]
        /\ first = Raw(s) /\ lastgd = <<>> /\ i = 0
Assign(w, v) ==
  /\ s' = IF Variant = "late" /\ w = "gd" THEN [s EXCEPT !.tc = Num(v)] ELSE Set(s, w, v)
  /\ lastgd' = IF w = "gd" THEN <<v>> ELSE IF w \in {"phi", "a", "g"}
                /\ (w # "g" \/ s.bw.k = "num") THEN lastgd ELSE <<>>
Next == /\ i < Steps /\ i' = i + 1 /\ UNCHANGED first
        /\ \/ \E v \in Gs : Assign("g", v)
           \/ \E v \in Ns : Assign("n", v)
           \/ \E v \in Opts(Widths) : Assign("bw", v)
           \/ \E v \in Opts(Delays) : Assign("tc", v)
           \/ \E v \in Delays : Assign("gd", v)
           \/ \E v \in {None, Fn, Num(3)} : Assign("phi", v)
           \/ \E v \in {None, Fn, Num(3)} : Assign("a", v)
Spec == Init /\ [][Next]_vars
Seen == IF Variant = "kept" /\ s.tc.k = "none" THEN [Read(s) EXCEPT !.tc = first,
           !.gd = Raw(s) - first] ELSE Read(s)
\* the peak of the envelope is where it is said to be
PeakTime == Seen.gd + Seen.tc = Seen.raw
\* by default the peak is at time zero, at any time in the history
Centred == s.tc.k = "none" => Seen.gd = 0
\* an assigned group delay is read back until something it depends on changes
Assigned == lastgd # <<>> => Seen.gd = lastgd[1]
\* by default the phase at the onset is that of a cosine peak delayed by twice the lead
Coherent == s.phi.k = "none" => Seen.phi + s.g * Seen.tc = 0
\* values that were given are read back
Given == /\ s.bw.k = "num" => Seen.bw = 1000 * s.bw.v
         /\ s.tc.k = "num" => Seen.tc = s.tc.v
         /\ s.a.k = "num" => Seen.a = s.a.v
\* wider filters ring for a shorter time, higher orders for a longer one
Faster == \A v \in Widths : s.bw.k = "num" /\ v >= s.bw.v => Raw(Set(s, "bw", Num(v))) <= Raw(s)
Longer == \A v \in Ns : v >= s.n => Raw(Set(s, "n", v)) >= Raw(s)
\* banks: centres are strictly inside the limits, uniformly spaced
Banks == \A lo \in 0..3, hi \in 4..9, n \in 1..5 :
  LET c == Spaced(lo, hi, n) IN
    /\ \A k \in 1..n : c[k] > 2 * (n + 1) * lo /\ c[k] < 2 * (n + 1) * hi
    /\ \A k \in 2..n : c[k] - c[k - 1] = 2 * (hi - lo)
    /\ Automatic(lo, hi, 1) = 2 * (hi - lo) - 1
================================================================================
