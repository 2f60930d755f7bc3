----------------------------- MODULE SharingTrace -----------------------------
(* Programs over real models.  Event: [op, ...arguments, out, obs]; obs lists  *)
(* for every root the objects met in Walk order: [id, cls, leaf, learned];     *)
(* ids are arbitrary but equal exactly for the same object.                    *)
EXTENDS Sharing, Batch
VARIABLES tid, l, h, roots
vars == <<tid, l, h, roots>>
Tr == Traces[tid]
Ev == Tr.events[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ h = <<>> /\ roots = <<>>
Node(r, p) == At(h, roots[r], p)
Given == IF Ev.gslot = "" THEN NoSlots ELSE Ev.gslot :> Node(Ev.r2, Ev.path2)
Result ==                                          \* <<heap, roots>>
  CASE Ev.op = "new" -> LET r == New(h, Ev.cls, Given)
                        IN <<r[1], Append(roots, r[2])>>
    [] Ev.op = "clone" -> LET r == Clone(h, roots[Ev.r])
                          IN <<r[1], Append(roots, r[2])>>
    [] Ev.op = "leaf" -> <<SetLeaf(h, Node(Ev.r, Ev.path), Ev.v), roots>>
    [] Ev.op = "none" -> <<SetSlot(h, Node(Ev.r, Ev.path), Ev.slot, 0), roots>>
    [] Ev.op = "assign" -> <<SetSlot(h, Node(Ev.r, Ev.path), Ev.slot,
                                     Node(Ev.r2, Ev.path2)), roots>>
    [] Ev.op = "fit" -> <<Fit(h, roots[Ev.r], Ev.v), roots>>
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Why(hh, rr) ==
  LET w == Flat([j \in DOMAIN rr |-> Walk(hh, rr[j])])
      o == Flat(Ev.obs)
  IN IF Ev.out # "ok" THEN "raised " \o Ev.out
     ELSE IF Len(w) # Len(o) THEN "different structure"
     ELSE LET badcls == {i \in DOMAIN w : o[i].cls # hh[w[i]].cls}
              badleaf == {i \in DOMAIN w : o[i].leaf # hh[w[i]].leaf}
              badlearn == {i \in DOMAIN w : o[i].learned # -1 /\
                              o[i].learned # hh[w[i]].learned}
              badid == {<<i, j>> \in (DOMAIN w) \X (DOMAIN w) :
                          i < j /\ (o[i].id = o[j].id) # (w[i] = w[j])}
          IN IF badcls # {} THEN
               LET i == CHOOSE i \in badcls : TRUE
               IN "part is a " \o o[i].cls \o ", should be a " \o hh[w[i]].cls
             ELSE IF badid # {} THEN
               LET p == CHOOSE p \in badid : TRUE
               IN o[p[1]].cls \o (IF o[p[1]].id = o[p[2]].id
                    THEN " is shared by accident" ELSE " is not the given one")
             ELSE IF badleaf # {} THEN
               LET i == CHOOSE i \in badleaf : TRUE
               IN "parameter of " \o o[i].cls \o " is " \o ToString(o[i].leaf)
                  \o ", should be " \o ToString(hh[w[i]].leaf)
             ELSE IF badlearn # {} THEN
               LET i == CHOOSE i \in badlearn : TRUE
               IN "learned state of " \o o[i].cls \o " is from fit "
                  \o ToString(o[i].learned) \o ", should be from "
                  \o ToString(hh[w[i]].learned)
             ELSE ""
Next == /\ l <= Len(Tr.events) /\ UNCHANGED tid
        /\ LET r == Result
               w == Why(r[1], r[2])
           IN IF w # "" THEN /\ Verdict(tid, FALSE, l, Ev.op \o ": " \o w)
                             /\ l' = 999999 /\ UNCHANGED <<h, roots>>
              ELSE /\ h' = r[1] /\ roots' = r[2] /\ l' = l + 1
                   /\ l = Len(Tr.events) => Verdict(tid, TRUE, l, "")
Spec == Init /\ [][Next]_vars
===============================================================================
