------------------------------- MODULE Tracker -------------------------------
(* Exhaustive instance of the tracker: every frame is any set of peaks over   *)
(* small frequency and magnitude domains.                                     *)
EXTENDS Conserve, Json
CONSTANTS Freqs, Mags, MaxPeaks, MaxFrames, Cfgs

VARIABLES c, s, hist, shown, prev

vars == <<c, s, hist, shown, prev>>

\* peaks of one frame: increasing frequencies, any magnitudes
FrameSets ==
  UNION {[fs -> Mags] : fs \in {x \in SUBSET Freqs : Cardinality(x) <= MaxPeaks}}
RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>>
                ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z
                     IN <<x>> \o SortedSeq(S \ {x})
MkFrame(fn, k) == LET fs == SortedSeq(DOMAIN fn)
                  IN [i \in DOMAIN fs |-> [f |-> fs[i], m |-> fn[fs[i]],
                                           id |-> 10 * k + i]]

Init == /\ c \in Cfgs
        /\ s = InitState /\ hist = <<>> /\ shown = {} /\ prev = {}

Frame(fn) ==
             LET pk == MkFrame(fn, s.frame + 1) IN
             /\ hist' = Append(hist, pk)
             /\ s' \in FrameStep(c, s, pk)
             /\ prev' = shown
             /\ \E x \in SUBSET MayShow(c, s') :
                  /\ MustShow(c, s') \subseteq x
                  /\ shown' = x
             /\ UNCHANGED c
Next == s.frame < MaxFrames /\ \E fn \in FrameSets : Frame(fn)
\* one random frame per step: behaviours for the implementation
SimNext == s.frame < MaxFrames /\ Frame(RandomElement(FrameSets))
SimSpec == Init /\ [][SimNext]_vars
Spec == Init /\ [][Next]_vars

Conserved == hist # <<>> /\ c.kind = "open" =>
  Clauses(c, hist, prev, shown, Cardinality(shown), Len(s.active)) = {}
CapRespected == Len(s.active) <= c.cap

\* Everything published is made of clean segments
Segs(t) == {<<i, j>> \in (DOMAIN t.pts) \X (DOMAIN t.pts) :
              /\ i <= j
              /\ \A k \in i..j : t.pts[k].id # 0
              /\ (i = 1 \/ t.pts[i-1].id = 0)
              /\ (j = Len(t.pts) \/ t.pts[j+1].id = 0)}
PubClean == \A t \in s.pub : \A g \in Segs(t) :
  TRUE \in Clean(c, [start |-> t.start + g[1] - 1,
                     pts |-> SubSeq(t.pts, g[1], g[2])])
\* Whatever is visible lies within the frames seen so far and tracks in one
\* merged list never overlap a gap
Within0 == \A t \in shown : t.start >= 0 /\ End(t) <= s.frame
\* Published data never disappears from the tracker (merging only joins)
PubKept == [][ \A t \in s.pub : \E u \in s'.pub : Ids(t) \subseteq Ids(u) ]_vars
\* Strip time only hides tracks, and a visible forward track stays visible
ForwardStable == [][ (~c.rev /\ c.kind = "modal") =>
   \A t \in s.pub \cap shown : \E u \in shown' : Ids(t) \subseteq Ids(u) ]_vars
\* Print complete behaviours for replay in the real tracker (simulation)
Emit == s.frame = MaxFrames => PrintT(ToJson([c |-> c, hist |-> hist]))
======================================================================
