------------------------------ MODULE MC_TimeAxis ------------------------------
(* A clock that runs through the frames of a sound, in either direction, and   *)
(* a track recorded against it: the axis of TimeAxis is the clock's.           *)
EXTENDS TimeAxis
CONSTANTS MaxFrames
VARIABLES k, frame, centre, tr, seen
vars == <<k, frame, centre, tr, seen>>
\* centre: position (half samples, in the original signal) of the middle of
\* the current analysis window
NF(c) == LET tot == c.n + (IF c.padded THEN c.w ELSE 0)
         IN IF tot < c.w THEN 0 ELSE 1 + (tot - c.w) \div c.h
Init == /\ k \in [h : 1..2, w : {2, 4}, n : {4, 6, 7}, padded : BOOLEAN,
                  rev : BOOLEAN, reduce : {"max"}]
        /\ frame = 0
        /\ centre = IF k.padded THEN (IF k.rev THEN 2 * k.n ELSE 0)
                    ELSE (IF k.rev THEN 2 * k.n - k.w ELSE k.w)
        /\ tr = [start |-> 0, pts |-> <<>>] /\ seen = <<>>
\* a frame is analysed: the track gains a point or a gap
Next == /\ frame < NF(k) /\ frame < MaxFrames
        /\ frame' = frame + 1
        /\ centre' = centre + (IF k.rev THEN -2 ELSE 2) * k.h
        /\ \/ tr.pts = <<>> /\ tr' = [tr EXCEPT !.start = frame + 1] /\ seen' = seen
           \/ /\ tr' = [tr EXCEPT !.pts = Append(@, [f |-> 1, m |-> 0])]
              /\ seen' = Append(seen, centre)
           \/ /\ tr.pts # <<>>
              /\ tr' = [tr EXCEPT !.pts = Append(@, [f |-> 0, m |-> Nil])]
              /\ UNCHANGED seen
        /\ UNCHANGED k
Spec == Init /\ [][Next]_vars
AxisIsClock == Times(k, tr) = seen
\* inside the sound (padded: up to its borders)
Inside == \A j \in DOMAIN seen : seen[j] >= 0 /\ seen[j] <= 2 * k.n + k.w
OneTimePerPoint == Len(Levels(tr)) = Len(seen)
================================================================================
