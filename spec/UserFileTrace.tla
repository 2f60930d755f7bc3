----------------------------- MODULE UserFileTrace -----------------------------
(* A history of saves of the real UserFile, each complete, failing or cut      *)
(* short by a crash. Events: [file, value, told ("ok", "error", "killed"),     *)
(* after], value the number of the saved value (0 if it cannot be serialised), *)
(* after the value loaded from each file afterwards (0: there is no file,      *)
(* -1: it cannot be loaded, -2: none of those saved).                          *)
EXTENDS Batch
VARIABLES tid, i, content
vars == <<tid, i, content>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ i = 1 /\ content = [f \in 1..2 |-> 0]
Step(j) ==
  LET s == T.steps[j]
      before == content[s.file]
      now == s.after[s.file] IN
  (IF s.told = "ok" /\ (s.value = 0 \/ now # s.value)
   THEN {"a save of " \o ToString(s.value) \o " reported successful leaves "
         \o ToString(now)} ELSE {})
  \cup (IF s.told # "ok" /\ now \notin {before, s.value}
        THEN {"an interrupted save (" \o s.told \o ") of " \o ToString(s.value)
              \o " over " \o ToString(before) \o " leaves " \o ToString(now)}
        ELSE {})
  \cup (IF s.told # "ok" /\ s.value = 0 /\ now # before
        THEN {"data that cannot be saved replaced " \o ToString(before)
              \o " by " \o ToString(now)} ELSE {})
  \cup (IF s.after[3 - s.file] # content[3 - s.file]
        THEN {"another file changed"} ELSE {})
Next ==
  /\ i <= Len(T.steps)
  /\ LET b == Step(i) IN
     /\ content' = T.steps[i].after
     /\ i' = IF b = {} THEN i + 1 ELSE Len(T.steps) + 2
     /\ (b # {}) => Verdict(tid, FALSE, i, T.steps[i].how \o ": " \o Join(b))
     /\ (b = {} /\ i = Len(T.steps)) => Verdict(tid, TRUE, i, "")
  /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
================================================================================
