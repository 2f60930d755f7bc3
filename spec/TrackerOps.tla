----------------------------- MODULE TrackerOps -----------------------------
(* The sinusoidal tracker as a state machine: which peaks continue which     *)
(* active tracks, which tracks end, which ended tracks are published or      *)
(* merged, and what is visible after every frame.                            *)
(*                                                                           *)
(* A peak is [f, m, id]: frequency and magnitude (integers) and an identity  *)
(* (the harness uses the phase as identity).  A track is [start, pts].  The  *)
(* gap marker NaN stands for the missing frames inside a merged track.       *)
(* A state is [frame, active (Seq of tracks), pub (set of tracks)].          *)
(* Every operator takes the configuration c, so that one specification       *)
(* serves exhaustive checking and traces with different configurations.      *)
(* Don't-care choices (equal strengths, equal distances, order in which      *)
(* tracks that end in the same frame are deactivated, rounding at exact      *)
(* regression ties) are nondeterministic.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Gap == [f |-> 0, m |-> 0, id |-> 0]

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
CeilDiv(a, b) == -((-a) \div b)
RECURSIVE SumF(_, _)
SumF(F(_), n) == IF n = 0 THEN 0 ELSE F(n) + SumF(F, n - 1)
IsPow2(n) == n \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024}

Ran(s) == {s[i] : i \in DOMAIN s}
End(t) == t.start + Len(t.pts)                  \* first frame after the track
LastF(t) == t.pts[Len(t.pts)].f
FirstF(t) == t.pts[1].f

-----------------------------------------------------------------------------
(* Continuation                                                              *)

\* distance d is strictly below offset + slope * f
Within(c, d, f) == d * c.sd < c.off * c.sd + c.sn * f

\* All outcomes of offering the peaks in todo, strongest first, to the free
\* tracks; an outcome is a function from continued peaks to tracks
RECURSIVE Assign(_, _, _, _, _, _)
Assign(c, act, pk, todo, free, map) ==
  IF todo = {} \/ free = {} THEN {map}
  ELSE LET strongest == {p \in todo : \A q \in todo : pk[q].m <= pk[p].m}
       IN UNION {
         LET dist(t) == Abs(LastF(act[t]) - pk[p].f)
             near == {t \in free : \A u \in free : dist(t) <= dist(u)}
             d == dist(CHOOSE t \in near : TRUE)
         IN IF Within(c, d, pk[p].f)
            THEN UNION {Assign(c, act, pk, todo \ {p}, free \ {t},
                               map @@ (p :> t)) : t \in near}
            ELSE Assign(c, act, pk, todo \ {p}, free, map)
         : p \in strongest }

Assignments(c, act, pk) ==
  Assign(c, act, pk, DOMAIN pk, DOMAIN act, <<>>)

Extend(t, p) == [t EXCEPT !.pts = Append(@, p)]

\* Active tracks that continue, in their order
Continued(act, pk, map) ==
  LET ks == SelectSeq([i \in DOMAIN act |-> i],
                      LAMBDA i : i \in Ran(map))
  IN [j \in DOMAIN ks |->
        Extend(act[ks[j]], pk[CHOOSE p \in DOMAIN map : map[p] = ks[j]])]

Ended(act, map) == {act[i] : i \in (DOMAIN act) \ Ran(map)}

\* Tracks opened by the remaining peaks, in the order given, up to the limit
Opened(c, pk, map, nact, frame) ==
  LET left == SelectSeq([i \in DOMAIN pk |-> i], LAMBDA i : i \notin DOMAIN map)
      n == Min2(Len(left), Max2(0, c.cap - nact))
  IN [j \in 1..n |-> [start |-> frame, pts |-> <<pk[left[j]]>>]]

-----------------------------------------------------------------------------
(* Cleanliness                                                               *)

MinLen(c) == Max2(2, CeilDiv(c.durn * c.fs, c.durd * c.h))
StripN(c) == CeilDiv(c.stripn * c.fs, c.stripd * c.h)

SumFreq(t) == LET g(i) == t.pts[i].f IN SumF(g, Len(t.pts))

\* time index of point i: 0..n-1 in the original direction of time
TimeIdx(c, n, i) == IF c.rev THEN n - i ELSE i - 1

\* twice the (unnormalised) covariance of time index and magnitude
Cov2(c, t) ==
  LET n == Len(t.pts)
      g(i) == (2 * TimeIdx(c, n, i) - (n - 1)) * t.pts[i].m
  IN SumF(g, n)
SumMag(t) == LET g(i) == t.pts[i].m IN SumF(g, Len(t.pts))
Flat(t) == \A i \in DOMAIN t.pts : t.pts[i].m = t.pts[1].m

\* magnitude fitted at time index 0, times n(n+1), minus the threshold
InterceptGap(c, t) ==
  LET n == Len(t.pts)
  IN SumMag(t) * (n + 1) - 3 * Cov2(c, t) - c.th * n * (n + 1)

LongEnough(c, t) == Len(t.pts) >= MinLen(c)
InBounds(c, t) ==
  /\ c.haslo => SumFreq(t) >= c.lo * Len(t.pts)
  /\ c.hashi => SumFreq(t) <= c.hi * Len(t.pts)

\* Set of acceptable verdicts: both when the exact value sits on the boundary
\* of a fitted quantity and rounding decides
SlopeOk(c, t) ==
  LET k == Cov2(c, t)
  IN IF Flat(t) THEN {TRUE} ELSE IF k = 0 THEN {TRUE, FALSE} ELSE {k < 0}
LevelOk(c, t) ==
  LET g == InterceptGap(c, t)
  IN IF Flat(t) THEN {g >= 0} ELSE IF g = 0 THEN {TRUE, FALSE} ELSE {g > 0}

Clean(c, t) ==
  IF c.kind = "open" THEN {TRUE}
  ELSE IF ~LongEnough(c, t) THEN {FALSE}
  ELSE IF c.kind = "base" THEN {TRUE}
  ELSE IF ~InBounds(c, t) THEN {FALSE}
  ELSE {a /\ b : a \in SlopeOk(c, t), b \in LevelOk(c, t)}

-----------------------------------------------------------------------------
(* Publication and merging                                                   *)

Reals(t) == {i \in DOMAIN t.pts : t.pts[i].id # 0}

\* frequency difference between older track u and newer track t as a fraction
\* <<num, den>>
FreqDiff(c, u, t) ==
  IF c.merge = "single" THEN <<Abs(LastF(u) - FirstF(t)), 1>>
  ELSE LET nu == Cardinality(Reals(u))
           nt == Len(t.pts)
           su == SumFreq(u)                     \* gaps count 0
           st == SumFreq(t)
       IN <<Abs(su * nt - st * nu), nu * nt>>

Less(a, b) == a[1] * b[2] < b[1] * a[2]
Leq(a, b) == a[1] * b[2] <= b[1] * a[2]

\* is the difference strictly below the threshold at the first frequency of t
BelowDf(c, d, t) ==
  LET l == d[1] * c.sd
      r == (c.off * c.sd + c.sn * FirstF(t)) * d[2]
  IN IF l = r /\ ~IsPow2(d[2]) THEN {TRUE, FALSE} ELSE {l < r}

MergeTracks(u, t) ==
  [start |-> u.start,
   pts |-> u.pts \o [i \in 1..(t.start - End(u)) |-> Gap] \o t.pts]

\* Every way of publishing the clean track t
Publish(c, pub, t) ==
  LET cand == {u \in pub : End(u) < t.start}
      near == {u \in cand : \A v \in cand :
                 Leq(FreqDiff(c, u, t), FreqDiff(c, v, t))}
  IN IF c.merge = "none" \/ cand = {} THEN {pub \cup {t}}
     ELSE UNION { { IF b THEN (pub \ {u}) \cup {MergeTracks(u, t)}
                         ELSE pub \cup {t}
                    : b \in BelowDf(c, FreqDiff(c, u, t), t) }
                  : u \in near }

Deactivate(c, pub, t) ==
  UNION {IF b THEN Publish(c, pub, t) ELSE {pub} : b \in Clean(c, t)}

\* Ended tracks are deactivated in any order
RECURSIVE DeactivateAll(_, _, _)
DeactivateAll(c, pub, ended) ==
  IF ended = {} THEN {pub}
  ELSE UNION { UNION {DeactivateAll(c, q, ended \ {t})
                      : q \in Deactivate(c, pub, t)} : t \in ended }

-----------------------------------------------------------------------------
InitState == [frame |-> 0, active |-> <<>>, pub |-> {}]

\* All states reachable by one frame with peaks pk
FrameStep(c, s, pk) ==
  UNION {
    LET cont == Continued(s.active, pk, map)
        act2 == cont \o Opened(c, pk, map, Len(cont), s.frame)
    IN { [frame |-> s.frame + 1, active |-> act2, pub |-> q]
         : q \in DeactivateAll(c, s.pub, Ended(s.active, map)) }
    : map \in Assignments(c, s.active, pk) }

\* Onset in frames from the beginning of the sound
Onset(c, s, t) == IF c.rev THEN s.frame - End(t) ELSE t.start
StripOk(c, s, t) == (c.kind = "modal" /\ c.hasstrip) =>
                      Onset(c, s, t) <= StripN(c)

\* Tracks that must / may be visible through the list of all tracks
MustShow(c, s) ==
  {t \in s.pub : StripOk(c, s, t)} \cup
  {t \in Ran(s.active) : Clean(c, t) = {TRUE} /\ StripOk(c, s, t)}
MayShow(c, s) ==
  {t \in s.pub : StripOk(c, s, t)} \cup
  {t \in Ran(s.active) : TRUE \in Clean(c, t) /\ StripOk(c, s, t)}
=============================================================================
