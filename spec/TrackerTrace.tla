---------------------------- MODULE TrackerTrace ----------------------------
(* Traces of the real tracker against TrackerOps: every frame fed, and after *)
(* it the number of active tracks, the ended tracks and all visible tracks.  *)
EXTENDS TrackerOps, Batch

VARIABLES tid, l, s
vars == <<tid, l, s>>

Tr == Traces[tid]
Ev == Tr.events[l]
c == Tr.cfg

Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = InitState

NActOk(x) == Len(x.active) = Ev.nact
PubOk(x) == Ran(Ev.pub) = x.pub /\ Len(Ev.pub) = Cardinality(x.pub)
ShowOk(x) == LET o == Ran(Ev.tracks)
             IN /\ Len(Ev.tracks) = Cardinality(o)
                /\ MustShow(c, x) \subseteq o
                /\ o \subseteq MayShow(c, x)
Match(x) == NActOk(x) /\ PubOk(x) /\ ShowOk(x)

Why(all) ==
  IF \A x \in all : ~NActOk(x) THEN
    "number of active tracks is " \o ToString(Ev.nact) \o ", specified "
      \o ToString({Len(x.active) : x \in all})
  ELSE IF \A x \in all : ~PubOk(x) THEN
    LET x == CHOOSE y \in all : TRUE
    IN "ended tracks: unexpected " \o ToString(Ran(Ev.pub) \ x.pub)
       \o " missing " \o ToString(x.pub \ Ran(Ev.pub))
  ELSE LET x == CHOOSE y \in all : PubOk(y)
       IN "visible tracks: unexpected "
          \o ToString(Ran(Ev.tracks) \ MayShow(c, x))
          \o " missing " \o ToString(MustShow(c, x) \ Ran(Ev.tracks))

Step ==
  /\ l <= Len(Tr.events)
  /\ IF Ev.err # "" THEN
       /\ Verdict(tid, FALSE, l, "raised " \o Ev.err)
       /\ UNCHANGED tid /\ l' = 999999 /\ UNCHANGED s
     ELSE LET all == FrameStep(c, s, Ev.peaks)
              good == {x \in all : Match(x)}
          IN IF good = {} THEN
               /\ Verdict(tid, FALSE, l, Why(all))
               /\ l' = 999999 /\ UNCHANGED <<tid, s>>
             ELSE /\ s' \in good /\ l' = l + 1 /\ UNCHANGED tid
                  /\ l = Len(Tr.events) => Verdict(tid, TRUE, l, "")
Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
