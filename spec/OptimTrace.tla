------------------------------- MODULE OptimTrace ------------------------------
(* A history of optimisations with one optimiser. The trace has the model's own *)
(* parameters (own: [n, w, h], fixed: others), whether there is the default     *)
(* remapping (remap), and events:                                               *)
(*  "start" [n, init, cont (continues the previous result)]                     *)
(*  "fit"   [fresh (a model never seen), given (STFT parameters of the point),  *)
(*           got, kind, direct (<<asked, got>> pairs), kept (<<own, got>> pairs *)
(*           of the parameters not optimised), data (fitted on the target)]     *)
(*  "loss"  [same (resynthesis of that model, clipped if asked), p, v]          *)
(*  "shown" [count, total, stage]                                               *)
(*  "end"   [err, iters, vals, p, v, fresh, fitted, last (the last fit is of    *)
(*           the returned model), told (it was given the arguments for it)]     *)
(* every event has clean: the given model is as it was.                         *)
EXTENDS RemapOps, Batch
VARIABLES tid, i, run, log, fits, calls, res
vars == <<tid, i, run, log, fits, calls, res>>
T == Traces[tid]
None == [n |-> 0, init |-> 0, known |-> <<>>]
Init == /\ tid \in 1..Len(Traces) /\ i = 1 /\ run = None /\ log = <<>>
        /\ fits = 0 /\ calls = 0 /\ res = <<>>
If(c, x) == IF c THEN {x} ELSE {}
Set(q) == {q[k] : k \in 1..Len(q)}
Pairs(q) == \A k \in 1..Len(q) : q[k][1] = q[k][2]
Fit(s) ==
  LET e == IF T.remap THEN Remapped(s.given, T.own) ELSE Plain(s.given, T.own) IN
  If(~s.fresh, "a model is fitted again")
  \cup If(s.got # [n |-> e.n, w |-> e.w, h |-> e.h] \/ e.t \notin Set(s.kind),
          "STFT " \o ToString(<<s.got, s.kind>>) \o " not " \o ToString(e))
  \cup If(~Pairs(s.direct), "optimised parameters " \o ToString(s.direct))
  \cup If(~Pairs(s.kept), "fixed parameters " \o ToString(s.kept))
  \cup If(~s.data, "fitted on something else")
Bad(s) ==
  If(~s.clean, "the given model changes") \cup
  (CASE s.act = "start" -> {}
     [] s.act = "fit" -> Fit(s)
     [] s.act = "loss" ->
          If(fits < Len(log) + 1, "loss without a fit")
          \cup If(~s.same, "loss of something else")
          \cup If(Len(log) + 1 > run.n, "too many evaluations")
     [] s.act = "shown" ->
          If(s.total # run.n, "total " \o ToString(s.total))
          \cup If(s.count # Len(log), "count " \o ToString(s.count) \o " of "
                  \o ToString(Len(log)))
          \cup If(Len(log) > 0 /\ s.stage # (IF Len(log) <= run.init
                                             THEN "randomize" ELSE "minimize"),
                  "stage " \o s.stage \o " at " \o ToString(Len(log)))
     [] s.act = "end" ->
          IF s.err # "" THEN {"raised " \o s.err} ELSE
          LET all == run.known \o log
              ps == [k \in 1..Len(all) |-> all[k].p]
              vs == [k \in 1..Len(all) |-> all[k].v] IN
          If(Len(log) # run.n, "evaluations " \o ToString(Len(log)))
          \cup If(s.iters # ps \/ s.vals # vs, "reports other evaluations")
          \cup If(\E k \in 1..Len(vs) : vs[k] < s.v, "not the minimum")
          \cup If(~\E k \in 1..Len(all) : all[k] = [p |-> s.p, v |-> s.v],
                  "best was not evaluated")
          \cup If(~s.fresh \/ ~s.last \/ ~s.fitted,
                  "returned model is not fitted")
          \cup If(~s.told, "arguments of the fit are lost")
          \cup If(s.set # s.p, "returned model is not the best")
     [] OTHER -> {"unknown event"})
Next ==
  /\ i <= Len(T.steps)
  /\ LET s == T.steps[i]
         bb == Bad(s) IN
     /\ (CASE s.act = "start" ->
                /\ run' = [n |-> s.n, init |-> s.init,
                           known |-> IF s.cont THEN res ELSE <<>>]
                /\ log' = <<>> /\ fits' = 0 /\ calls' = 0 /\ UNCHANGED res
           [] s.act = "fit" -> fits' = fits + 1 /\ UNCHANGED <<run, log, calls, res>>
           [] s.act = "loss" -> /\ log' = Append(log, [p |-> s.p, v |-> s.v])
                                /\ UNCHANGED <<run, fits, calls, res>>
           [] s.act = "end" -> /\ res' = run.known \o log
                               /\ UNCHANGED <<run, log, fits, calls>>
           [] OTHER -> UNCHANGED <<run, log, fits, calls, res>>)
     /\ i' = IF bb = {} THEN i + 1 ELSE Len(T.steps) + 2
     /\ (bb # {}) => Verdict(tid, FALSE, i, Join(bb))
     /\ (bb = {} /\ i = Len(T.steps)) => Verdict(tid, TRUE, i, "")
  /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
================================================================================
