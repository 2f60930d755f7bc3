------------------------------ MODULE Analysis --------------------------------
(* The analysis tab: loads, analyses (which give the user the hand while they *)
(* run), and what is played or exported.                                      *)
(* Sounds are numbered; an analysis of sound a is numbered too and its result *)
(* is [of |-> a, n |-> number]. out is the last thing heard or saved.         *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Sounds,       \* the sounds that can be loaded (from 1)
          MaxRuns,      \* analyses per history
          LateAudio,    \* the results are combined with the audio at the end
          LateRate,     \* the sample rate of exports is that of the audio loaded
          KeepOld,      \* a failure keeps the result of the previous analysis
          HalfDone,     \* the previous result goes away when an analysis starts
          NoLock,       \* a request while an analysis runs starts another
          LoseLock      \* a failure leaves the lock taken
VARIABLES audio,    \* sound loaded, 0 none
          runs,     \* stack of analyses running: [of, n]
          locked,
          res,      \* result available: [of, n, len, rate], of = 0 none
          out,      \* last answer: [kind, of, n, len, rate] or an error
          count,    \* analyses started
          last      \* the analysis which ended last: [of, n], of = 0: it failed
vars == <<audio, runs, locked, res, out, count, last>>
None == [of |-> 0, n |-> 0, len |-> 0, rate |-> 0]
Nothing == [kind |-> "none", r |-> None]
Error == [kind |-> "error", r |-> None]
Init == /\ audio = 0 /\ runs = <<>> /\ locked = FALSE /\ res = None
        /\ out = Nothing /\ count = 0 /\ last = None
Load(a) == /\ audio' = a /\ out' = Nothing
           /\ UNCHANGED <<runs, locked, res, count, last>>
Request ==
  IF audio = 0 THEN out' = Error /\ UNCHANGED <<audio, runs, locked, res, count, last>>
  ELSE IF locked /\ ~NoLock
  THEN out' = Nothing /\ UNCHANGED <<audio, runs, locked, res, count, last>>
  ELSE /\ count < MaxRuns
       /\ count' = count + 1
       /\ runs' = Append(runs, [of |-> audio, n |-> count + 1])
       /\ locked' = TRUE /\ out' = Nothing
       /\ res' = (IF HalfDone THEN None ELSE res)
       /\ UNCHANGED <<audio, last>>
Result(r) == [of |-> r.of, n |-> r.n,
              len |-> IF LateAudio THEN audio ELSE r.of, rate |-> r.of]
End(ok) ==
  /\ runs # <<>>
  /\ LET r == runs[Len(runs)] IN
     /\ runs' = SubSeq(runs, 1, Len(runs) - 1)
     /\ locked' = (IF LoseLock /\ ~ok THEN TRUE ELSE FALSE)
     /\ res' = (IF ok THEN Result(r) ELSE IF KeepOld THEN res ELSE None)
     /\ last' = (IF ok THEN [None EXCEPT !.of = r.of, !.n = r.n] ELSE None)
     /\ out' = (IF ok THEN Nothing ELSE Error)
     /\ UNCHANGED <<audio, count>>
Hear(kind) ==
  /\ out' = (IF audio = 0 \/ res.of = 0 THEN Error
             ELSE [kind |-> kind,
                   r |-> IF LateRate THEN [res EXCEPT !.rate = audio] ELSE res])
  /\ UNCHANGED <<audio, runs, locked, res, count, last>>
Next == \/ \E a \in Sounds : Load(a)
        \/ Request
        \/ \E ok \in BOOLEAN : End(ok)
        \/ \E k \in {"play", "wav", "json"} : Hear(k)
Spec == Init /\ [][Next]_vars
-------------------------------------------------------------------------------
TypeOK == audio \in Sounds \cup {0} /\ Len(runs) <= MaxRuns
OneAtATime == Len(runs) <= 1
Heard == out.kind \in {"play", "wav", "json"}
\* what is heard is the analysis which ended last, whole and at its own rate
LastHeard == Heard => /\ out.r.of = last.of /\ out.r.n = last.n
                      /\ out.r.len = last.of /\ out.r.rate = last.of
\* when no analysis runs and there is one with a result, it can be heard
CanHear == (runs = <<>> /\ last.of # 0) => res.of # 0
\* no failure prevents other analyses
CanAnalyse == (runs = <<>>) => ~locked
===============================================================================
