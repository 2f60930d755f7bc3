----------------------------- MODULE StorageTrace -----------------------------
(* Real storages.  A trace has an initial "save" and for each client a          *)
(* sequence of operations with what was observed: [op, k, v, i, ret, obs,      *)
(* look, err].  ret: the returned value; look: whether obs (the whole state)    *)
(* was observed after it; with several clients the state is observed at the     *)
(* end only, in final, and any interleaving of whole operations is fine.        *)
EXTENDS StorageOps, Batch
VARIABLES tid, pos, s, stop
vars == <<tid, pos, s, stop>>
Tr == Traces[tid]
N(t) == Len(Traces[t].clients)
Init == /\ tid \in 1..Len(Traces) /\ pos = [c \in 1..N(tid) |-> 0]
        /\ s = InitS(Traces[tid].save) /\ stop = FALSE
Op(c) == Tr.clients[c][pos[c] + 1]
Why(c, s2) ==
  LET e == Op(c) IN
  IF e.err # "" THEN e.op \o " raised " \o e.err
  ELSE IF e.op = "append" /\ e.ret # e.v THEN "append did not return the value"
  ELSE IF e.op = "get" /\ e.k \in DOMAIN s.m /\ (~e.found \/ e.vals # s.m[e.k])
       THEN "found " \o ToString(e.vals) \o " instead of " \o ToString(s.m[e.k])
  ELSE IF e.op = "get" /\ e.k \notin DOMAIN s.m /\ e.found
       THEN "found " \o ToString(e.vals) \o " at a key never used"
  ELSE IF e.look /\ ~Shows(s2, e.obs)
       THEN "state after " \o e.op \o " is " \o ToString(e.obs)
              \o " instead of " \o ToString(s2.m)
  ELSE ""
AllDone == \A c \in DOMAIN pos : pos[c] = Len(Tr.clients[c])
Next ==
  \/ /\ ~stop /\ ~AllDone /\ \E c \in DOMAIN pos :
        /\ pos[c] < Len(Tr.clients[c])
        /\ LET s2 == Apply(s, Op(c))
               w == Why(c, s2)
           IN IF w # "" THEN /\ Verdict(tid, FALSE, pos[c] + 1, w)
                             /\ stop' = TRUE /\ UNCHANGED <<pos, s>>
              ELSE s' = s2 /\ pos' = [pos EXCEPT ![c] = @ + 1] /\ stop' = FALSE
     /\ UNCHANGED tid
  \/ /\ ~stop /\ AllDone /\ stop' = TRUE /\ UNCHANGED <<tid, pos, s>>
     /\ Verdict(tid, Shows(s, Tr.final), 100,
                "final state " \o ToString(Tr.final) \o " (one order gives "
                \o ToString(s.m) \o ")")
Spec == Init /\ [][Next]_vars
===============================================================================
