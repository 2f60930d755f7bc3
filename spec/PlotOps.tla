-------------------------------- MODULE PlotOps --------------------------------
(* What plots of an analysis draw. Times are in frames. A track is [start, f,  *)
(* m (values, one per frame)]; a line is [x, y (or y and z), dash].            *)
EXTENDS Integers, Sequences, FiniteSets
Max(s) == CHOOSE v \in s : \A u \in s : u <= v
Len1(t) == Len(t.f)
\* frames in the sound, known only if the frames of the analysis were kept
Ends(ts) == {ts[i].start + Len1(ts[i]) : i \in DOMAIN ts}
Frames(ts, kept, n) == IF kept THEN n ELSE IF ts = <<>> THEN 0 ELSE Max(Ends(ts))
Time(t, j, reverse, n) == IF reverse THEN n - (t.start + j - 1) ELSE t.start + j - 1
Times(t, reverse, n) == [j \in 1..Len1(t) |-> Time(t, j, reverse, n)]
Lines(ts, what, beats, reverse, kept, frames) ==
  LET n == Frames(ts, kept, frames) IN
    [i \in DOMAIN ts |-> [x |-> Times(ts[i], reverse, n),
       y |-> IF what = "freq" THEN ts[i].f ELSE ts[i].m,
       dash |-> IF beats = <<>> THEN FALSE ELSE beats[i]]]
Solid(ts, beats, reverse, kept, frames) ==
  LET n == Frames(ts, kept, frames) IN
    [i \in DOMAIN ts |-> [x |-> Times(ts[i], reverse, n),
       y |-> ts[i].f, z |-> ts[i].m,
       dash |-> IF beats = <<>> THEN FALSE ELSE beats[i]]]
================================================================================
