------------------------------- MODULE AudioTrace ------------------------------
(* A recorded history of the real audio and analysis tabs. files: those on disk *)
(* [kind, full, rate, rows, dir, stem] (see AudioOps); what is exported is      *)
(* added to them. Steps:                                                        *)
(*  act: "load" (id of the file, 0 if cancelled), "trim", "play" (from either   *)
(*    tab: tab 1 or 2), "analyse" (pred: what is synthesised, in 1/1024, times: *)
(*    at which, in samples), "again" (plays the resynthesis), "wav" (path "ok", *)
(*    "bad" or "cancel", dir, stem of the new file)                             *)
(*  err, boxes (error boxes), x (audio, in units of the file), rate, a, b       *)
(*  (region), heard (samples, times the unit), hrate (the two rates, 0 if       *)
(*  nothing was heard), offered (folder, -1 for none), name (offered),          *)
(*  fitted (what the analysis was given, times the unit; its rate is frate),    *)
(*  wrote (a file was written)                                                  *)
(* cached: file whose audio was restored from a session (0 for none).           *)
EXTENDS AudioOps, Batch
VARIABLES tid, i, files, cur, res, dir, sdir, stem
vars == <<tid, i, files, cur, res, dir, sdir, stem>>
T == Traces[tid]
None == [x |-> <<>>, rate |-> 0]
Init == /\ tid \in 1..Len(Traces) /\ i = 0 /\ files = Traces[tid].files
        /\ cur = Traces[tid].cached /\ res = None /\ dir = 0 /\ sdir = -1
        /\ stem = "output"
E == T.steps[i + 1]
F == files[E.id]
Good == E.act = "load" /\ E.id > 0 /\ F.kind # "bad"
Cur == IF Good THEN E.id ELSE cur
Is(what, got, want) ==
  IF got = want THEN {} ELSE {what \o " " \o ToString(got) \o " instead of "
                              \o ToString(want)}
Quiet == Is("sounds", E.heard, <<>>)
Analysed == E.act = "analyse" /\ cur > 0
Result == [x |-> Clipped(E.pred, 1024), rate |-> E.rate]
Sound == Region(Mixed(files[cur]), E.a, E.b)
Bad ==
  (IF E.err # "" THEN {"raised " \o E.err} ELSE {})
  \* what is loaded
  \cup (IF Cur = 0 THEN Is("audio", E.x, <<>>)
        ELSE Is("audio", E.x, Mixed(files[Cur])) \cup Is("rate", E.rate, files[Cur].rate))
  \cup (CASE E.act = "load" ->
               Quiet \cup Is("folder", E.offered, dir)
               \cup (IF E.id = 0 \/ Good THEN Is("error boxes", E.boxes, 0)
                     ELSE Is("error boxes", E.boxes, 1))
          [] E.act = "trim" -> Quiet \cup Is("error boxes", E.boxes, 0)
          [] E.act = "play" ->
               IF cur = 0 THEN Quiet \cup (IF E.tab = 2 THEN Is("error boxes", E.boxes, 1) ELSE {})
               ELSE Is("heard", E.heard, Sound)
                    \cup Is("rates heard", E.hrate, <<E.rate, E.rate>>)
          [] E.act = "analyse" ->
               IF cur = 0 THEN Quiet \cup Is("error boxes", E.boxes, 1)
               ELSE Quiet \cup Is("analysed", E.fitted, Sound) \cup Is("error boxes", E.boxes, 0)
                    \cup Is("rate analysed", E.frate, E.rate)
                    \cup Is("times", E.times, [k \in 1..(E.b - E.a) |-> k - 1])
          [] E.act = "again" ->
               IF res = None THEN Quiet \cup Is("error boxes", E.boxes, 1)
               ELSE Is("heard", E.heard, res.x) \cup Is("rates heard", E.hrate, <<res.rate, res.rate>>)
          [] E.act = "wav" ->
               IF res = None THEN Quiet \cup Is("error boxes", E.boxes, 1) \cup Is("written", E.wrote, FALSE)
               ELSE Quiet \cup (IF sdir = -2 THEN {} ELSE Is("folder", E.offered, sdir)) \cup Is("name", E.name, stem \o "_resynth")
                    \cup Is("written", E.wrote, E.path = "ok")
                    \cup Is("error boxes", E.boxes, IF E.path = "bad" THEN 1 ELSE 0)
          [] OTHER -> {"unknown event"})
Next == /\ i < Len(T.steps) /\ UNCHANGED tid
        /\ LET b == Bad IN
           /\ i' = IF b = {} THEN i + 1 ELSE Len(T.steps) + 1
           /\ (b = {} => (i + 1 = Len(T.steps) => Verdict(tid, TRUE, i + 1, "")))
           /\ (b # {} => Verdict(tid, FALSE, i + 1, Join(b)))
        /\ cur' = Cur
        /\ res' = IF Analysed THEN Result ELSE res
        /\ dir' = IF E.act = "load" /\ E.id > 0 THEN F.dir ELSE dir
        /\ stem' = IF E.act = "load" /\ E.id > 0 THEN F.stem ELSE stem
        /\ sdir' = (IF E.act = "load" /\ E.id > 0 /\ sdir = -1 THEN F.dir
                    ELSE IF E.act = "wav" /\ res # None /\ E.path # "cancel"
                    THEN (IF E.wrote THEN E.dir ELSE -2) ELSE sdir)
        /\ files' = (IF E.act = "wav" /\ E.wrote
                     THEN Append(files, [File(res.x, 1024, res.rate) EXCEPT !.kind = "f"]
                                 @@ [dir |-> E.dir, stem |-> E.stem])
                     ELSE files)
Spec == Init /\ [][Next]_vars
================================================================================
