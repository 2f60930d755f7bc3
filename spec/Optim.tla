--------------------------------- MODULE Optim ---------------------------------
(* Hyperparameter optimisation, possibly continued from a previous result. A   *)
(* model is the point it is set to (0: as constructed) and whether it is       *)
(* fitted; the optimiser is free to choose any point at each step.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Points, Values, MaxCalls, MaxRuns,
          OnGiven,     \* evaluates on the given model instead of a copy
          LastPoint,   \* returns the last point evaluated
          Again,       \* evaluates known points again when continuing
          CountKnown,  \* the report of known points counts as a call
          StageOff     \* the random stage ends one call early
VARIABLES f,        \* loss of each point
          given, runs, state, todo, known, log, shown, ret
vars == <<f, given, runs, state, todo, known, log, shown, ret>>
\* state: "idle", "told" (known points reported), "run"
Init == /\ f \in [Points -> Values] /\ given = 0 /\ runs = <<>> /\ state = "idle"
        /\ todo = 0 /\ known = <<>> /\ log = <<>> /\ shown = <<>> /\ ret = 0
Start(n, r) ==
  /\ state = "idle" /\ Len(runs) < MaxRuns
  /\ runs' = Append(runs, [n |-> n, init |-> r, known |-> Len(log)])
  /\ state' = (IF log = <<>> THEN "run" ELSE "told")
  /\ todo' = n + (IF Again THEN Len(log) ELSE 0)
  /\ known' = log /\ shown' = <<>> /\ ret' = 0
  /\ UNCHANGED <<f, given, log>>
Stage(i) == IF i <= runs[Len(runs)].init - (IF StageOff THEN 1 ELSE 0)
            THEN "randomize" ELSE "minimize"
Told == /\ state = "told" /\ state' = "run"
        /\ shown' = (IF CountKnown THEN <<Stage(1)>> ELSE shown)
        /\ log' = (IF Again THEN <<>> ELSE log)
        /\ UNCHANGED <<f, given, runs, todo, known, ret>>
Evaluate(p) ==
  /\ state = "run" /\ todo > 0
  /\ (Again /\ Len(log) < Len(known)) => p = known[Len(log) + 1].p
  /\ given' = (IF OnGiven THEN p ELSE given)
  /\ log' = Append(log, [p |-> p, v |-> f[p], set |-> p, on |-> IF OnGiven THEN "given" ELSE "copy"])
  /\ shown' = Append(shown, Stage(Len(shown) + 1))
  /\ todo' = todo - 1
  /\ UNCHANGED <<f, runs, state, known, ret>>
Best == CHOOSE i \in 1..Len(log) :
          \A k \in 1..Len(log) : log[i].v < log[k].v \/ (log[i].v = log[k].v /\ i <= k)
Return == /\ state = "run" /\ todo = 0
          /\ ret' = (IF LastPoint THEN log[Len(log)].p ELSE log[Best].p)
          /\ state' = "idle"
          /\ UNCHANGED <<f, given, runs, todo, known, log, shown>>
Next == \/ \E n \in 1..MaxCalls, r \in 0..MaxCalls : r <= n /\ Start(n, r)
        \/ Told
        \/ \E p \in Points : Evaluate(p)
        \/ Return
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------------
Untouched == given = 0
Copies == \A i \in 1..Len(log) : log[i].on = "copy"
Done == state = "idle" /\ ret # 0
BestReturned == Done => \A i \in 1..Len(log) : f[ret] <= log[i].v
Continues == Done => LET r == runs[Len(runs)] IN
  /\ Len(log) = r.known + r.n
  /\ SubSeq(log, 1, r.known) = known
  /\ Len(shown) = r.n
  /\ \A i \in 1..r.n : shown[i] = (IF i <= r.init THEN "randomize" ELSE "minimize")
================================================================================
