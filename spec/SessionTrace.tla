------------------------------ MODULE SessionTrace ------------------------------
(* A recorded history of real launchers and real processes on one directory.   *)
(* Events: [ev]: "run" (the user starts the launcher), "splash", "up" (with    *)
(* tabs: the session each tab sees, cache: the cache file is still there,      *)
(* theme), "do" (session afterwards, err), "end" (how), "over" (the launcher   *)
(* returned, with value), "stuck". A session is [x (number of the audio, 0     *)
(* none, -1 unknown), sr, a, b].                                               *)
EXTENDS Batch
VARIABLES tid, i, at, pending, theme, session
vars == <<tid, i, at, pending, theme, session>>
T == Traces[tid]
None == [x |-> 0, sr |-> 0, a |-> 0, b |-> 0]
Init == /\ tid \in 1..Len(Traces) /\ i = 1 /\ at = "off" /\ pending = None
        /\ theme = T.theme /\ session = None
Bad(e) ==
  CASE e.ev = "run" -> IF at = "off" THEN {} ELSE {"started twice"}
    [] e.ev = "splash" ->
         IF at \in {"run", "reload"} THEN {}
         ELSE {"the interface starts again after " \o at}
    [] e.ev = "up" ->
         (IF at = "splash" THEN {} ELSE {"interface after " \o at})
         \cup {"a tab sees " \o ToString(e.tabs[k]) \o " instead of "
               \o ToString(pending) : k \in {k \in 1..Len(e.tabs) :
                                             e.tabs[k] # pending}}
         \cup (IF e.cache THEN {"the cached session is not consumed"} ELSE {})
         \cup (IF e.theme = theme THEN {}
               ELSE {"theme " \o e.theme \o " instead of " \o theme})
    [] e.ev = "do" ->
         (IF e.err = "" THEN {} ELSE {"raised " \o e.err})
         \cup {"a tab sees " \o ToString(e.tabs[k]) \o " after " \o e.what
               : k \in {k \in 1..Len(e.tabs) : e.tabs[k] # e.tabs[1]}}
         \cup (IF e.what = "decline" /\ e.tabs[1] # session
               THEN {"a declined reload changes the session"} ELSE {})
         \cup (IF e.what = "load" /\ e.tabs[1].x # e.x
               THEN {"loaded " \o ToString(e.tabs[1])} ELSE {})
    [] e.ev = "end" -> IF at \in {"up", "splash"} THEN {} ELSE {"ends"}
    [] e.ev = "over" ->
         IF at = "ended" THEN {}
         ELSE {"the launcher returns after " \o at}
    [] OTHER -> {"the launcher does not come to an end"}
Next ==
  /\ i <= Len(T.events)
  /\ LET e == T.events[i]
         b == Bad(e) IN
     /\ at' = CASE e.ev = "end" -> IF e.how = "reload" THEN "reload" ELSE "ended"
                [] e.ev = "do" -> at
                [] e.ev = "over" -> "off"
                [] OTHER -> e.ev
     /\ session' = CASE e.ev = "up" -> pending
                     [] e.ev = "do" -> e.tabs[1]
                     [] OTHER -> session
     /\ pending' = IF e.ev = "end"
                   THEN (IF e.how = "reload" THEN session
                         ELSE IF e.how = "early" THEN pending ELSE None)
                   ELSE IF e.ev = "up" THEN None ELSE pending
     /\ theme' = IF e.ev \in {"do", "end"} /\ e.theme # "" THEN e.theme
                 ELSE theme
     /\ i' = IF b = {} THEN i + 1 ELSE Len(T.events) + 2
     /\ (b # {}) => Verdict(tid, FALSE, i, Join(b))
     /\ (b = {} /\ i = Len(T.events)) => Verdict(tid, at' = "off", i,
          IF at' = "off" THEN "" ELSE "the launcher does not return")
  /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
================================================================================
