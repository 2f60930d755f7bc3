------------------------------ MODULE WarnTrace ------------------------------
(* One history of real calls. events: seq of [e, ...]:                         *)
(* "enter": act, cat, rec (0 or number of the call), on                        *)
(* "warn": c, got (where it was found: numbers as in Outcome; 0 is not listed) *)
(* "exit": on, same (the filters of the process are those before the call)     *)
(* "args": ok (called with its own arguments, and its result came back)        *)
EXTENDS WarnOps, Batch
VARIABLES tid, i, stack, bad
vars == <<tid, i, stack, bad>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ i = 1 /\ stack = <<Root>> /\ bad = ""
E == T.events[i]
Wrong ==
  CASE E.e = "warn" ->
         LET o == Outcome(stack, E.c) IN
         IF E.got = (IF o = 0 THEN <<>> ELSE <<o>>) THEN "" ELSE
         "warning " \o E.c \o " went to " \o ToString(E.got) \o ", not to " \o ToString(o)
    [] E.e = "exit" -> IF E.same THEN "" ELSE "filters not put back"
    [] E.e = "args" -> IF E.ok THEN "" ELSE "other arguments or result"
    [] OTHER -> ""
Step == /\ bad = "" /\ i <= Len(T.events)
        /\ bad' = Wrong
        /\ stack' = CASE E.e = "enter" /\ E.on -> Append(stack, [act |-> E.act,
                                                   cat |-> E.cat, rec |-> E.rec])
                      [] E.e = "exit" /\ E.on -> Pop(stack)
                      [] OTHER -> stack
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ (Wrong # "" => Verdict(tid, FALSE, i, Wrong))
End == /\ bad = "" /\ i = Len(T.events) + 1 /\ i' = i + 1
       /\ UNCHANGED <<tid, stack, bad>>
       /\ Verdict(tid, T.err = "", i, T.err)
Next == Step \/ End
Spec == Init /\ [][Next]_vars
==============================================================================
