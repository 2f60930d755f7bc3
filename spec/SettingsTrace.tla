----------------------------- MODULE SettingsTrace -----------------------------
(* A recorded session with the real settings tab. const.keys: the kinds of the *)
(* numeric settings; const.wtypes, const.themes: the known names.              *)
(* Steps: [act: "settle", how: "apply" or "restart", fresh (nothing touched    *)
(* since the last settlement), err, num, wtype, theme (the texts it read, as   *)
(* numbers and names), prev (the theme before), shown, file, params (the       *)
(* numeric values after), wt, th (names after, in these three), window (the    *)
(* window array is that of this type and size), jobs, bounds, ask].            *)
EXTENDS SettingsOps, Batch
VARIABLES tid, i, bad
vars == <<tid, i, bad>>
T == Traces[tid]
Keys == DOMAIN File.const.keys
Kind(k) == File.const.keys[k]
Known(S) == {S[j] : j \in 1..Len(S)}
Init == tid \in 1..Len(Traces) /\ i = 1 /\ bad = {}
Values(s, v) ==
  {"value of " \o k \o " is " \o ToString(v[k]) \o " from " \o ToString(s.num[k])
     : k \in {k \in Keys : ~Ok(Kind(k), s.num[k], v[k])}}
  \cup (IF WindowOk(s.num.wsize, v.sinusoidal__n, v.wsize) THEN {}
        ELSE {"window size " \o ToString(v.wsize) \o " from "
              \o ToString(s.num.wsize) \o ", fft size "
              \o ToString(v.sinusoidal__n)})
  \cup (IF BoundsOk(s.num.smfb_0, s.num.smfb_1, v.smfb_0, v.smfb_1) THEN {}
        ELSE {"bounds " \o ToString(<<v.smfb_0, v.smfb_1>>) \o " from "
              \o ToString(<<s.num.smfb_0, s.num.smfb_1>>)})
Step(j) ==
  LET s == T.steps[j] IN
  IF s.err # "" THEN {s.how \o ": raised " \o s.err} ELSE
  LET v == s.file IN
  Values(s, v)
  \cup (IF WTypeOk(s.wtype, Known(File.const.wtypes), s.wt[2])
        THEN {} ELSE {"window type " \o s.wt[2] \o " from " \o s.wtype})
  \cup (IF s.th[2] \in Known(File.const.themes)
           /\ (s.theme \in Known(File.const.themes) => s.th[2] = s.theme)
           /\ (s.theme = "" => s.th[2] = s.prev)
        THEN {} ELSE {"theme " \o s.th[2] \o " from " \o s.theme})
  \cup {"shown " \o k \o " is " \o ToString(s.shown[k]) \o ", saved "
        \o ToString(v[k]) : k \in {k \in Keys : s.shown[k] # v[k]}}
  \cup {"in use " \o k \o " is " \o ToString(s.params[k]) \o ", saved "
        \o ToString(v[k])
        : k \in {k \in Keys \cap DOMAIN s.params : s.params[k] # v[k]}}
  \cup (IF s.wt[1] = s.wt[2] /\ s.th[1] = s.th[2] THEN {}
        ELSE {"names shown differ from saved"})
  \cup (IF s.window THEN {} ELSE {"window in use"})
  \cup (IF s.bounds = <<v.smfb_0, v.smfb_1>> THEN {} ELSE {"bounds in use"})
  \cup (IF s.jobs = Jobs(v.parallel, v.n_jobs) THEN {}
        ELSE {"workers " \o ToString(s.jobs)})
  \cup (IF j > 1 /\ s.fresh /\ T.steps[j - 1].err = ""
           /\ (v # T.steps[j - 1].file \/ s.wt # T.steps[j - 1].wt
               \/ s.th # T.steps[j - 1].th)
        THEN {s.how \o " changed settings nobody touched"} ELSE {})
  \cup (IF s.ask THEN {"asks to reload without a new theme"} ELSE {})
Next ==
  /\ i <= Len(T.steps)
  /\ LET b == Step(i) IN
     /\ bad' = b
     /\ i' = IF b = {} THEN i + 1 ELSE Len(T.steps) + 2
     /\ (b # {}) => Verdict(tid, FALSE, i, Join(b))
     /\ (b = {} /\ i = Len(T.steps)) => Verdict(tid, TRUE, i, "")
  /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
================================================================================
