------------------------------ MODULE MC_Sharing ------------------------------
(* All short programs over a few models: models are connected only if some    *)
(* operation connected them, and operations touch only what they reach.       *)
EXTENDS Sharing
CONSTANTS MaxOps, MaxRoots
VARIABLES h, roots, links, ops, last
vars == <<h, roots, links, ops, last>>

Init == h = <<>> /\ roots = <<>> /\ links = {} /\ ops = 0 /\ last = <<>>
Subs(o) == Reach(h, o) \ {o}
More == ops < MaxOps /\ ops' = ops + 1

NewRoot(c) == /\ More /\ Len(roots) < MaxRoots
              /\ LET r == New(h, c, NoSlots)
                 IN h' = r[1] /\ roots' = Append(roots, r[2])
              /\ last' = <<"new", Len(roots) + 1>> /\ UNCHANGED links
NewGiven(c) == /\ More /\ Len(roots) < MaxRoots
  /\ \E j \in DOMAIN roots : \E o \in Subs(roots[j]) : \E s \in DOMAIN Slots(c) :
       /\ Kind(h[o].cls) = Kind(Slots(c)[s][2])
       /\ LET r == New(h, c, Slots(c)[s][1] :> o)
          IN h' = r[1] /\ roots' = Append(roots, r[2])
       /\ links' = links \cup {<<j, Len(roots) + 1>>}
  /\ last' = <<"new", Len(roots) + 1>>
CloneRoot == /\ More /\ Len(roots) < MaxRoots
  /\ \E j \in DOMAIN roots :
       LET r == Clone(h, roots[j]) IN h' = r[1] /\ roots' = Append(roots, r[2])
  /\ last' = <<"new", Len(roots) + 1>> /\ UNCHANGED links
Leafs == /\ More /\ \E j \in DOMAIN roots : \E o \in Reach(h, roots[j]) :
            /\ h' = SetLeaf(h, o, 7) /\ last' = <<"leaf", j>>
         /\ UNCHANGED <<roots, links>>
Reset == /\ More /\ \E j \in DOMAIN roots : \E o \in Reach(h, roots[j]) :
            \E s \in DOMAIN h[o].slots :
              /\ h' = SetSlot(h, o, s, 0) /\ last' = <<"slot", j>>
         /\ UNCHANGED <<roots, links>>
Assign == /\ More /\ \E j, k \in DOMAIN roots :
            \E o \in Reach(h, roots[j]) : \E s \in DOMAIN h[o].slots :
            \E p \in Subs(roots[k]) :
              /\ Kind(h[p].cls) = Kind(SlotDefault(h[o].cls, s))
              /\ h' = SetSlot(h, o, s, p)
              /\ links' = links \cup {<<j, k>>} /\ last' = <<"slot", j>>
         /\ UNCHANGED roots
DoFit == /\ More /\ \E j \in DOMAIN roots :
            /\ h' = Fit(h, roots[j], ops + 1) /\ last' = <<"fit", j>>
         /\ UNCHANGED <<roots, links>>
Next == NewRoot("SAMPLE") \/ NewRoot("Beats") \/ NewGiven("SAMPLE") \/ CloneRoot
        \/ Leafs \/ Reset \/ Assign \/ DoFit
Spec == Init /\ [][Next]_vars

RECURSIVE Linked(_, _)
Linked(S, n) == IF n = 0 THEN S
                ELSE Linked(S \cup {k \in DOMAIN roots : \E j \in S :
                        <<j, k>> \in links \/ <<k, j>> \in links}, n - 1)
NoAccident == \A j, k \in DOMAIN roots :
  Reach(h, roots[j]) \cap Reach(h, roots[k]) # {} =>
    k \in Linked({j}, MaxRoots)
\* a change through one model is invisible in every model not linked with it
Visible(hh, r) == [i \in DOMAIN Walk(hh, r) |->
                     <<hh[Walk(hh, r)[i]].leaf, hh[Walk(hh, r)[i]].learned>>]
Untouched == [][\A k \in DOMAIN roots :
   (last'[1] # "new" /\ k \notin Linked({last'[2]}, MaxRoots)) =>
      Visible(h', roots[k]) = Visible(h, roots[k])]_vars
===============================================================================
