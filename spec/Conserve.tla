------------------------------ MODULE Conserve ------------------------------
(* Conservation of peaks: what any tracker may do, without saying which peak *)
(* continues which track.  State: frames fed so far and the tracks visible.  *)
EXTENDS TrackerOps

Ids(t) == {t.pts[i].id : i \in Reals(t)}

\* The frame sequence hist is a sequence of sequences of peaks
\* points of a track are the peaks of its frames
PointsAreP(hist, t) ==
  /\ t.start >= 0 /\ End(t) <= Len(hist) /\ Len(t.pts) > 0
  /\ \A i \in Reals(t) : \E k \in DOMAIN hist[t.start + i] :
       hist[t.start + i][k] = t.pts[i]

GapsInside(t) == 1 \in Reals(t) /\ Len(t.pts) \in Reals(t)

NoShare(tracks) == \A t, u \in tracks : t # u => Ids(t) \cap Ids(u) = {}
NoRepeat(t) == Cardinality(Ids(t)) = Cardinality(Reals(t))

\* Names of the violated clauses.  pre, post: sets of visible tracks;
\* nact: number of active tracks; all tracks are visible ("open" tracker)
Clauses(c, hist, pre, post, npost, nact) ==
  LET k == Len(hist)
      fresh == {t \in post : End(t) = k /\ t.pts[Len(t.pts)].id # 0}
      used == UNION {Ids(t) : t \in post}
      dropped == {i \in DOMAIN hist[k] : hist[k][i].id \notin used}
      old == UNION {Ids(t) : t \in pre}
  IN (IF npost # Cardinality(post) THEN {"a track is listed twice"} ELSE {})
  \cup (IF \A t \in post : PointsAreP(hist, t) THEN {}
        ELSE {"a track point is not the peak of its frame"})
  \cup (IF \A t \in post : c.merge = "none" => Reals(t) = DOMAIN t.pts THEN {}
        ELSE {"missing value in a track that was not merged"})
  \cup (IF \A t \in post : GapsInside(t) THEN {}
        ELSE {"missing value at the border of a track"})
  \cup (IF NoShare(post) /\ \A t \in post : NoRepeat(t) THEN {}
        ELSE {"a peak belongs to two tracks"})
  \cup (IF nact <= c.cap THEN {} ELSE {"more active tracks than the maximum"})
  \cup (IF dropped = {} \/ nact = c.cap THEN {}
        ELSE {"a peak was dropped below the maximum"})
  \cup (IF Cardinality(fresh) = nact THEN {}
        ELSE {"active tracks are not those continued in this frame"})
  \cup (IF old \subseteq used THEN {} ELSE {"a published point disappeared"})
  \* grouping of earlier points never changes, except by joining whole tracks
  \cup (IF \A t \in pre : \E u \in post : Ids(t) \subseteq Ids(u) THEN {}
        ELSE {"an earlier track was split"})
=============================================================================
