----------------------------- MODULE ParallelFit -----------------------------
(* One fit, serial or with workers: analysis of frames, then one task per      *)
(* track.  Tasks finish in any order, or fail; results are taken in the order  *)
(* of the tracks.  While there are workers the model uses shared storages in   *)
(* place of its own.  Progress is reported along the way.                      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxFrames, MaxTracks

VARIABLES
  par, nf, nt,   \* parallel?, number of frames and of tracks
  failing,       \* set of tasks that fail
  phase,         \* "start", "frames", "tasks", "collect", "done"
  shared,        \* the model uses shared storages
  state,         \* task -> "new", "sent", "ended", "failed"
  store,         \* shared or own storage during the fit: task -> 0 or value
  own,           \* what the model's own storage holds at the end
  results,       \* results taken so far
  frames,        \* frames processed
  cur, max,      \* progress
  out            \* "", "ok" or "error"
vars == <<par, nf, nt, failing, phase, shared, state, store, own, results,
          frames, cur, max, out>>
Tasks == 1..nt
Empty == [t \in Tasks |-> 0]

Init == /\ par \in BOOLEAN /\ nf \in 0..MaxFrames /\ nt \in 0..MaxTracks
        /\ failing \in SUBSET (1..nt)
        /\ phase = "start" /\ shared = FALSE
        /\ state = [t \in 1..nt |-> "new"] /\ store = [t \in 1..nt |-> 0]
        /\ own = [t \in 1..nt |-> 0] /\ results = <<>> /\ frames = 0
        /\ cur = 0 /\ max = 0 /\ out = ""
Keep == UNCHANGED <<par, nf, nt, failing>>

Start == /\ phase = "start" /\ phase' = "frames" /\ shared' = par
         /\ max' = nf /\ cur' = 0
         /\ UNCHANGED <<state, store, own, results, frames, out>>
Frame == /\ phase = "frames" /\ frames < nf
         /\ frames' = frames + 1 /\ cur' = cur + 1
         /\ UNCHANGED <<phase, shared, state, store, own, results, max, out>>
Tracks == /\ phase = "frames" /\ frames = nf
          /\ phase' = "tasks" /\ max' = nt /\ cur' = 0
          /\ UNCHANGED <<shared, state, store, own, results, frames, out>>

\* serial: one task after the other, an error ends the fit
Leave(o) == /\ out' = o /\ phase' = "done" /\ shared' = FALSE
SerialTask ==
  /\ ~par /\ phase = "tasks" /\ Len(results) < nt
  /\ LET t == Len(results) + 1 IN
     IF t \in failing
     THEN /\ Leave("error") /\ state' = [state EXCEPT ![t] = "failed"]
          /\ UNCHANGED <<store, own, results, frames, cur, max>>
     ELSE /\ state' = [state EXCEPT ![t] = "ended"]
          /\ store' = [store EXCEPT ![t] = t] /\ own' = [own EXCEPT ![t] = t]
          /\ results' = Append(results, t) /\ cur' = cur + 1
          /\ UNCHANGED <<phase, shared, frames, max, out>>
SerialEnd == /\ ~par /\ phase = "tasks" /\ Len(results) = nt /\ Leave("ok")
             /\ UNCHANGED <<state, store, own, results, frames, cur, max>>

Send == /\ par /\ phase = "tasks"
        /\ \E t \in Tasks : /\ state[t] = "new"
                            /\ \A u \in 1..(t - 1) : state[u] # "new"
                            /\ state' = [state EXCEPT ![t] = "sent"]
        /\ UNCHANGED <<phase, shared, store, own, results, frames, cur, max, out>>
End == /\ par /\ phase \in {"tasks", "collect"}
       /\ \E t \in Tasks : /\ state[t] = "sent"
            /\ IF t \in failing
               THEN state' = [state EXCEPT ![t] = "failed"] /\ UNCHANGED store
               ELSE /\ state' = [state EXCEPT ![t] = "ended"]
                    /\ store' = [store EXCEPT ![t] = t]
       /\ UNCHANGED <<phase, shared, own, results, frames, cur, max, out>>
Over == {t \in Tasks : state[t] \in {"ended", "failed"}}
\* reports may lag behind but come before results are taken
Report == /\ par /\ phase = "tasks" /\ \A t \in Tasks : state[t] # "new"
          /\ cur' \in cur..Cardinality(Over)
          /\ phase' = IF cur' = nt THEN "collect" ELSE phase
          /\ UNCHANGED <<shared, state, store, own, results, frames, max, out>>
Collect == /\ par /\ phase = "collect" /\ Len(results) < nt
           /\ LET t == Len(results) + 1 IN
              IF state[t] = "failed"
              THEN Leave("error") /\ UNCHANGED <<own, results>>
              ELSE results' = Append(results, t) /\ UNCHANGED <<own, phase, shared, out>>
           /\ UNCHANGED <<state, store, frames, cur, max>>
ParEnd == /\ par /\ phase = "collect" /\ Len(results) = nt
          /\ Leave("ok") /\ own' = store
          /\ UNCHANGED <<state, store, results, frames, cur, max>>

Next == Keep /\ (Start \/ Frame \/ Tracks \/ SerialTask \/ SerialEnd \/ Send
                 \/ End \/ Report \/ Collect \/ ParEnd)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the same for both ways of fitting, whatever the order of the workers
SameAsSerial == out = "ok" => /\ failing = {}
                              /\ results = [t \in Tasks |-> t]
                              /\ own = [t \in Tasks |-> t]
ErrorReported == (out = "error") => failing # {}
OwnStorage == out # "" => ~shared
Never == phase = "done" => out # ""
NotBeyond == cur <= max
\* not more than what was done
NotAhead == /\ phase = "frames" => cur <= frames
            /\ phase \in {"tasks", "collect"} => cur <= Cardinality(Over)
Complete == out = "ok" => cur = max
Forward == [][phase' = phase => cur' >= cur]_vars
Ends == <>(out # "")
==============================================================================
