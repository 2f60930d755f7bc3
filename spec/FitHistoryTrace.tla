--------------------------- MODULE FitHistoryTrace ---------------------------
(* Histories of one real model object.  Events:                              *)
(*  [op |-> "set", p], [op |-> "clone", seen], [op |-> "reset", seen],        *)
(*  [op |-> "fit", x, p, fail, out, seen]: p are the parameters changed (a    *)
(* record of dimension -> value, -1 unchanged), out "ok" or an error name,    *)
(* seen the identity of what is visible afterwards.  const.fresh lists        *)
(* [p, x, seen]: what a fresh model shows after its first fit (serial).  own:  *)
(* the model holds its own storage objects afterwards.                       *)
EXTENDS Batch
VARIABLES tid, l, params
vars == <<tid, l, params>>
Tr == Traces[tid]
Ev == Tr.events[l]
Upd(p, d) == [k \in DOMAIN p |-> IF d[k] = -1 THEN p[k] ELSE d[k]]
Fresh(p, x) == LET f == Tr.fresh
                   j == CHOOSE j \in DOMAIN f : f[j].p = p /\ f[j].x = x
               IN f[j].seen
Init == tid \in 1..Len(Traces) /\ l = 1 /\ params = Traces[tid].init
Why(p) ==
  CASE ~Ev.own -> "the model does not hold its own storage objects"
    [] Ev.op = "set" -> IF Ev.out = "ok" THEN "" ELSE "set_params raised " \o Ev.out
    [] Ev.op = "clone" -> IF Ev.out # "ok" THEN "clone raised " \o Ev.out
                          ELSE IF Ev.seen # 0
                          THEN "a clone shows results of a fit" ELSE ""
    [] Ev.op = "fit" /\ Ev.fail -> IF Ev.out # "Injected"
         THEN "a failure while fitting became " \o Ev.out ELSE ""
    [] Ev.op = "fit" /\ ~Ev.fail ->
         IF Ev.out # "ok" THEN "fit raised " \o Ev.out
         ELSE IF Ev.seen = Fresh(p, Ev.x) THEN ""
         ELSE "results differ from those of a fresh model (" \o Ev.diff \o ")"
Next ==
  /\ l <= Len(Tr.events)
  /\ UNCHANGED tid
  /\ LET p == Upd(params, Ev.p)
         w == Why(p)
     IN IF w # "" THEN Verdict(tid, FALSE, l, w) /\ l' = 999999
                       /\ UNCHANGED params
        ELSE /\ params' = p /\ l' = l + 1
             /\ l = Len(Tr.events) => Verdict(tid, TRUE, l, "")
Spec == Init /\ [][Next]_vars
==============================================================================
