------------------------------ MODULE FitHistory ------------------------------
(* One model object over a history of parameter changes, successful and        *)
(* failing fits, and clones.  Every piece of data carries the number of the    *)
(* fit that produced it.  A fit goes through: setting parameters, resetting    *)
(* what earlier fits left, analysing frames (filling tracker and storage),     *)
(* fitting tracks (filling the decision storage), publishing.                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Params, Sounds, MaxFits, FramesOf(_), TracksOf(_)

VARIABLES
  params,        \* current parameters
  phase,         \* "idle", "frames", "tracks"
  x, i,          \* sound being fitted, progress within the phase
  n,             \* number of the current or last fit
  tracker,       \* sequence of <<fit, frame>> held by the tracker
  store,         \* sequence of <<fit, frame>> saved while analysing frames
  decisions,     \* function index -> <<fit, track>> saved while fitting tracks
  modes,         \* published modes: sequence of <<fit, track, params, sound>>
  last           \* "none", "ok", "failed": outcome of the last fit
vars == <<params, phase, x, i, n, tracker, store, decisions, modes, last>>

Init == /\ params \in Params /\ phase = "idle" /\ x = CHOOSE s \in Sounds : TRUE
        /\ i = 0 /\ n = 0 /\ tracker = <<>> /\ store = <<>> /\ decisions = <<>>
        /\ modes = <<>> /\ last = "none"

SetParams == /\ phase = "idle"
             /\ \E p \in Params : params' = p
             /\ UNCHANGED <<phase, x, i, n, tracker, store, decisions, modes, last>>

\* parameters given to fit are kept
Start == /\ phase = "idle" /\ n < MaxFits
         /\ \E s \in Sounds, p \in Params : x' = s /\ params' = p
         /\ n' = n + 1 /\ i' = 0 /\ phase' = "frames"
         /\ tracker' = <<>> /\ store' = <<>> /\ decisions' = <<>>
         /\ UNCHANGED <<modes, last>>

Frame == /\ phase = "frames" /\ i < FramesOf(x)
         /\ i' = i + 1
         /\ tracker' = Append(tracker, <<n, i>>)
         /\ store' = IF params.save THEN Append(store, <<n, i>>) ELSE store
         /\ UNCHANGED <<params, phase, x, n, decisions, modes, last>>

EndFrames == /\ phase = "frames" /\ i = FramesOf(x)
             /\ phase' = "tracks" /\ i' = 0
             /\ UNCHANGED <<params, x, n, tracker, store, decisions, modes, last>>

Put(f, k, v) == [j \in 1..(IF k > Len(f) THEN k ELSE Len(f)) |->
                   IF j = k THEN v ELSE IF j <= Len(f) THEN f[j] ELSE <<>>]

Track == /\ phase = "tracks" /\ i < TracksOf(x)
         /\ i' = i + 1
         /\ decisions' = IF params.save THEN Put(decisions, i + 1, <<n, i>>)
                         ELSE decisions
         /\ UNCHANGED <<params, phase, x, n, tracker, store, modes, last>>

Publish == /\ phase = "tracks" /\ i = TracksOf(x)
           /\ modes' = [j \in 1..TracksOf(x) |-> <<n, j, params, x>>]
           /\ phase' = "idle" /\ last' = "ok"
           /\ UNCHANGED <<params, x, i, n, tracker, store, decisions>>

Fail == /\ phase # "idle"
        /\ phase' = "idle" /\ last' = "failed"
        /\ UNCHANGED <<params, x, i, n, tracker, store, decisions, modes>>

\* a clone keeps parameters and nothing that was learned
Clone == /\ phase = "idle"
         /\ tracker' = <<>> /\ store' = <<>> /\ decisions' = <<>>
         /\ modes' = <<>> /\ last' = "none"
         /\ UNCHANGED <<params, phase, x, i, n>>

Next == SetParams \/ Start \/ Frame \/ EndFrames \/ Track \/ Publish \/ Fail
        \/ Clone
Spec == Init /\ [][Next]_vars

\* what a fresh object would hold after the same fit
FreshStore == [j \in 1..(IF params.save THEN FramesOf(x) ELSE 0) |-> <<n, j - 1>>]
FreshDecisions == [j \in 1..(IF params.save THEN TracksOf(x) ELSE 0) |-> <<n, j - 1>>]

JustFitted == phase = "idle" /\ last = "ok" /\ i = TracksOf(x) /\ modes # <<>> =>
                modes[1][1] = n
HistoryFree ==
  (phase = "tracks" /\ i = TracksOf(x)) =>
    /\ tracker = [j \in 1..FramesOf(x) |-> <<n, j - 1>>]
    /\ store = FreshStore
    /\ decisions = FreshDecisions
NoLeftover == phase # "idle" =>
  /\ \A j \in DOMAIN tracker : tracker[j][1] = n
  /\ \A j \in DOMAIN store : store[j][1] = n
  /\ \A j \in DOMAIN decisions : decisions[j] # <<>> => decisions[j][1] = n
==============================================================================
