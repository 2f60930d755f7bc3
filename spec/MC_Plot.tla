-------------------------------- MODULE MC_Plot --------------------------------
(* A sound of n frames is analysed forwards or backwards. Each partial exists   *)
(* in an interval of frames of the sound; its track starts at the first frame   *)
(* analysed. Then the tracks are drawn. Variants: "flat" (never mirrored),      *)
(* "each" (each track is mirrored on its own).                                  *)
EXTENDS PlotOps
CONSTANTS N, Partials, Variant
VARIABLES parts, reverse, kept, a, tracks, lines
vars == <<parts, reverse, kept, a, tracks, lines>>
Intervals == {p \in (0..(N - 1)) \X (1..N) : p[1] < p[2]}
\* frame of the sound that is analysed at step a
Sound(k) == IF reverse THEN N - 1 - k ELSE k
Alive(i, k) == Sound(k) >= parts[i][1] /\ Sound(k) < parts[i][2]
Init == /\ parts \in UNION {[1..k -> Intervals] : k \in 0..Partials}
        /\ reverse \in BOOLEAN /\ kept \in BOOLEAN /\ a = 0
        /\ tracks = [i \in DOMAIN parts |-> [start |-> -1, f |-> <<>>, m |-> <<>>]]
        /\ lines = <<>>
\* the value at each frame is the frame of the sound
Analyse == /\ a < N /\ a' = a + 1
           /\ tracks' = [i \in DOMAIN parts |-> IF ~Alive(i, a) THEN tracks[i] ELSE
                [start |-> IF tracks[i].start < 0 THEN a ELSE tracks[i].start,
                 f |-> Append(tracks[i].f, Sound(a)), m |-> Append(tracks[i].m, Sound(a))]]
           /\ UNCHANGED <<parts, reverse, kept, lines>>
Draw == /\ a = N /\ lines = <<>> /\ parts # <<>>
        /\ lines' = (IF Variant = "flat" THEN Lines(tracks, "freq", <<>>, FALSE, kept, N)
             ELSE IF Variant = "each" THEN [i \in DOMAIN tracks |->
               Lines(<<tracks[i]>>, "freq", <<>>, reverse, FALSE, N)[1]]
             ELSE Lines(tracks, "freq", <<>>, reverse, kept, N))
        /\ UNCHANGED <<parts, reverse, kept, a, tracks>>
Next == Analyse \/ Draw
Spec == Init /\ [][Next]_vars
Points == {p \in (DOMAIN lines) \X (1..N) : p[2] <= Len(lines[p[1]].x)}
X(p) == lines[p[1]].x[p[2]]
Y(p) == lines[p[1]].y[p[2]]
\* what comes first in the sound is drawn first, simultaneous points together
InOrder == \A p, q \in Points : Y(p) < Y(q) => X(p) < X(q)
Together == \A p, q \in Points : Y(p) = Y(q) => X(p) = X(q)
Spaced == \A p, q \in Points : X(p) - X(q) = Y(p) - Y(q)
Everything == lines # <<>> => Cardinality(Points) =
  Cardinality({p \in (DOMAIN parts) \X (0..(N - 1)) :
               p[2] >= parts[p[1]][1] /\ p[2] < parts[p[1]][2]})
\* the time axis is that of the sound up to a frame when the frames were kept
TrueTime == kept => \A p \in Points : X(p) - Y(p) \in 0..1
================================================================================
