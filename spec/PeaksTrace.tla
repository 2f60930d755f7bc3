------------------------------ MODULE PeaksTrace ------------------------------
(* Observed peak detections: [kind, x, hast, t, ph, det, loc, mag, pha, scale, *)
(* err]; det: detected positions (1-based), loc/mag/pha scaled refinements.   *)
EXTENDS Peaks, Batch
VARIABLES tid, done
T == Traces[tid]
Bad(t) ==
  IF t.err # "" THEN {"raised " \o t.err} ELSE
  LET ps == PeakSeq(t.x, t.hast, t.t) IN
  IF t.det # ps THEN {"peaks " \o ToString(t.det) \o " instead of "
                        \o ToString(ps)} ELSE
  IF t.kind = "ranks" THEN {} ELSE
  IF Len(t.loc) # Len(ps) \/ Len(t.mag) # Len(ps)
     \/ (Len(t.ph) > 0 /\ Len(t.pha) # Len(ps))
  THEN {"wrong number of refined peaks"} ELSE
  UNION { LET i == ps[j] d == Diff(t.x, i) c == Curv(t.x, i) IN
    (IF Near(t.loc[j], t.scale, i, d, 2 * c, 2) THEN {}
     ELSE {"location of the peak at " \o ToString(i)})
    \cup (IF Near(t.mag[j], t.scale, t.x[i], -(d * d), 8 * c, 2) THEN {}
     ELSE {"magnitude of the peak at " \o ToString(i)})
    \cup (IF Len(t.ph) = 0 \/ PhaseNear(t.ph, t.x, i, t.pha[j], t.scale, 2)
     THEN {} ELSE {"phase of the peak at " \o ToString(i)})
    : j \in DOMAIN ps }
  \cup (IF t.intact THEN {} ELSE {"the input changed"})
Init == tid \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ LET b == Bad(T) IN Verdict(tid, b = {}, 1, T.kind \o ": " \o Join(b))
Spec == Init /\ [][Next]_<<tid, done>>
=============================================================================
