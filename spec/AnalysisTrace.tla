----------------------------- MODULE AnalysisTrace ----------------------------
(* A recorded history of the real analysis tab. Events, in the order in which *)
(* they end: [act, loaded (audio is loaded), id (of the sound and settings at  *)
(* hand), good (whether analysing them succeeds), path ("ok", "bad", "cancel", *)
(* "" not asked), err, boxes, infos (message boxes since the previous event),  *)
(* heard (a sound was played), snd (which sounds it is: <<"o" or "r", id>>),   *)
(* file (a file was written), saved (which results it holds), po, pr (the      *)
(* sounds plotted as original and resynthesis), drawn (there are such plots),  *)
(* pt (the analyses whose tracks and spectra are shown, where full), torn (the *)
(* results could not be drawn: the plots, and whether there is a result, are   *)
(* free until the next analysis),                                              *)
(* clip (what was heard or saved is within the limits)].                       *)
(* "deaf" is a sound that could not be played.                                 *)
(* "begin" precedes what happens during an analysis and "end" follows it.      *)
EXTENDS Batch
VARIABLES tid, i, stack, last, torn
vars == <<tid, i, stack, last, torn>>
T == Traces[tid]
Init == /\ tid \in 1..Len(Traces) /\ i = 1 /\ stack = <<>> /\ last = 0
        /\ torn = FALSE
Set(q) == {q[k] : k \in 1..Len(q)}
Running == \E k \in 1..Len(stack) : stack[k].run
Top == stack[Len(stack)]
Ends(s) == s.act = "end" /\ Top.run
NewLast(s) == IF Ends(s) THEN (IF Top.good THEN Top.id ELSE 0) ELSE last
Quiet(s) == /\ ~s.heard /\ ~s.file
Refused(s) == Quiet(s) /\ s.boxes > 0
If(c, x) == IF c THEN {x} ELSE {}
\* an output must be that of the analysis which ended last; during another it
\* may be refused
Result(s, done) ==
  IF last = 0 \/ ~s.loaded THEN If(~Refused(s), s.act \o " without analysis")
  ELSE IF (Running \/ torn) /\ Refused(s) THEN {}
  ELSE done
NewTorn(s) == IF Ends(s) THEN s.torn /\ Top.good ELSE torn
Bad(s) ==
  IF s.err = "Hang" \/ (s.err # "" /\ s.act # "deaf" /\ ~NewTorn(s))
  THEN {"raised " \o s.err} ELSE
  LET now == NewLast(s) IN
  (CASE s.act = "begin" -> {}
     [] s.act = "end" ->
          If(~Quiet(s), "analysis makes sounds")
          \cup (IF Top.run THEN (IF Top.good THEN If(s.boxes > 0 /\ ~s.torn, "error shown")
                                 ELSE If(s.boxes = 0, "failure not shown"))
                ELSE If(~s.loaded /\ s.boxes = 0, "no error without audio"))
     [] s.act \in {"load", "trim", "set"} ->
          If(~Quiet(s), s.act \o " makes sounds")
     [] s.act = "playo" ->
          IF ~s.loaded THEN If(~Refused(s), "plays without audio")
          ELSE If(~s.heard \/ <<"o", s.id>> \notin Set(s.snd) \/ s.boxes > 0,
                  "original played is " \o ToString(s.snd) \o " not "
                  \o ToString(s.id))
     [] s.act = "deaf" -> If(~Quiet(s), "deaf makes sounds")
     [] s.act = "playr" ->
          Result(s, If(~s.heard \/ <<"r", last>> \notin Set(s.snd)
                       \/ s.boxes > 0 \/ ~s.clip,
                       "resynthesis played is " \o ToString(s.snd) \o " not "
                       \o ToString(last)))
     [] s.act \in {"wav", "json"} ->
          Result(s,
            IF s.path = "ok"
            THEN If(~s.file \/ last \notin Set(s.saved) \/ s.boxes > 0 \/ ~s.clip
                    \/ s.infos = 0,
                    s.act \o " holds " \o ToString(s.saved) \o " not "
                    \o ToString(last))
            ELSE IF s.path = "bad" THEN If(~Refused(s), "failure not shown")
            ELSE If(~Quiet(s) \/ s.boxes > 0, "cancelled " \o s.act))
     [] OTHER -> {"unknown event"})
  \cup (IF NewTorn(s) THEN {}
        ELSE IF now # last \/ s.act = "end" \/ s.drawn
        THEN (IF now = 0
              THEN If(s.drawn /\ ~Running, "plots without analysis")
              ELSE If(~(Running /\ ~Ends(s) /\ ~s.drawn) /\
                      (~s.drawn \/ now \notin Set(s.po) \/ now \notin Set(s.pr)
                       \/ (s.full /\ now \notin Set(s.pt))),
                      "plots " \o ToString(<<s.po, s.pr, s.pt>>) \o " not "
                      \o ToString(now)))
        ELSE If(now # 0 /\ ~Running, "plot lost"))
Next ==
  /\ i <= Len(T.steps)
  /\ LET s == T.steps[i]
         bb == Bad(s) IN
     /\ last' = NewLast(s)
     /\ torn' = NewTorn(s)
     /\ stack' = (IF s.act = "begin"
                  THEN Append(stack, [run |-> s.loaded /\ ~Running,
                                      id |-> s.id, good |-> s.good])
                  ELSE IF s.act = "end" THEN SubSeq(stack, 1, Len(stack) - 1)
                  ELSE stack)
     /\ i' = IF bb = {} THEN i + 1 ELSE Len(T.steps) + 2
     /\ (bb # {}) => Verdict(tid, FALSE, i, Join(bb))
     /\ (bb = {} /\ i = Len(T.steps)) => Verdict(tid, TRUE, i, "")
  /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
===============================================================================
