-------------------------------- MODULE MC_Audio -------------------------------
(* Files of every format are loaded, trimmed, analysed (any resynthesis), played *)
(* and exported; what is exported can be loaded again. Values are compared in    *)
(* units of one sixth (full is 2 or 1, there are up to three channels).          *)
EXTENDS AudioOps, TLC
CONSTANTS Full, Len0, Chans, Variant, Limit
VARIABLES disk, cur, x, rate, a, b, res, heard, want, n
vars == <<disk, cur, x, rate, a, b, res, heard, want, n>>
Common == 6 * Full
Scale(q, u) == [i \in 1..Len(q) |-> q[i] * (Common \div u)]
Range(k) == CASE k = "u" -> 0..(2 * Full - 1) [] k = "s" -> (0 - Full)..(Full - 1)
              [] OTHER -> (0 - Full - 1)..(Full + 1)
Files == [kind : {"bad"}, full : {Full}, rate : {1}, rows : {<<>>}]
         \cup UNION {[kind : {k}, full : {Full}, rate : {1, 2},
                      rows : [1..m -> [1..c -> Range(k)]]] :
                     k \in {"u", "s", "f"}, m \in 1..Len0, c \in Chans}
Sound(f) ==
  CASE Variant = "first" -> Scale([i \in 1..Len(f.rows) |-> Offset(f, f.rows[i][1])], f.full)
    [] Variant = "zero" -> Scale([i \in 1..Len(f.rows) |-> Sum(f.rows[i])], Unit(f))
    [] OTHER -> Scale(Mixed(f), Unit(f))
NoFile == [kind |-> "none", full |-> Full, rate |-> 0, rows |-> <<>>]
None == [x |-> <<>>, rate |-> 0]
Init == /\ disk \in Files /\ cur = NoFile /\ x = <<>> /\ rate = 0 /\ a = 0 /\ b = 0
        /\ res = None /\ heard = None /\ want = None /\ n = 0
Keep == UNCHANGED <<heard, want>>
Load == /\ disk.kind # "bad" /\ x' = Sound(disk) /\ rate' = disk.rate
        /\ \E p, q \in 0..Len(x') : p < q /\ a' = p /\ b' = q
        /\ cur' = disk /\ Keep /\ UNCHANGED <<disk, res>>
Fail == /\ disk.kind = "bad" /\ Keep /\ UNCHANGED <<disk, cur, x, a, b, res>>
        /\ rate' = IF Variant = "early" THEN disk.rate ELSE rate
Analyse == /\ cur.kind # "none" /\ \E r \in [1..(b - a) -> {0 - Common - 1, 0, Common - 1}] :
                res' = [x |-> IF Variant = "loud" THEN r ELSE Clipped(r, Common), rate |-> rate]
           /\ Keep /\ UNCHANGED <<disk, cur, x, rate, a, b>>
Play == /\ cur.kind # "none" /\ want' = [x |-> Region(x, a, b), rate |-> rate]
        /\ heard' = IF Variant = "whole" THEN [x |-> x, rate |-> rate] ELSE want'
        /\ UNCHANGED <<disk, cur, x, rate, a, b, res>>
Again == /\ res # None /\ want' = res
         /\ heard' = [x |-> res.x, rate |-> IF Variant = "rate" THEN rate ELSE res.rate]
         /\ UNCHANGED <<disk, cur, x, rate, a, b, res>>
Export == /\ res # None /\ disk' = File(res.x, Common, res.rate)
          /\ Keep /\ UNCHANGED <<cur, x, rate, a, b, res>>
Other == /\ \E f \in {[kind |-> "bad", full |-> Full, rate |-> 1, rows |-> <<>>],
                      [kind |-> "s", full |-> Full, rate |-> 2, rows |-> <<<<1>>, <<0>>>>]} :
              disk' = f
         /\ Keep /\ UNCHANGED <<cur, x, rate, a, b, res>>
Next == n < Limit /\ n' = n + 1 /\ (Load \/ Fail \/ Analyse \/ Play \/ Again \/ Export \/ Other)
Spec == Init /\ [][Next]_vars
Heard == heard = want
\* every channel counts the same, silence is zero, one is full scale
Faithful == cur.kind # "none" => x = Scale(Mixed(cur), Unit(cur)) /\ rate = cur.rate
Silence == cur.kind # "none" /\ (\A i \in 1..Len(cur.rows) : \A j \in 1..Len(cur.rows[i]) :
             cur.rows[i][j] = IF cur.kind = "u" THEN cur.full ELSE 0)
           => \A i \in 1..Len(x) : x[i] = 0
Bounded == cur.kind # "none" /\ cur.kind # "f" => \A i \in 1..Len(x) : x[i] \in (0 - Common)..Common
Loud == \A i \in 1..Len(res.x) : res.x[i] \in (0 - Common)..Common
\* what is exported is the same sound when loaded
RoundTrip == [][Export => Sound(disk') = res.x /\ disk'.rate = res.rate]_vars
Untouched == [][Fail => x' = x /\ rate' = rate /\ a' = a /\ b' = b]_vars
================================================================================
