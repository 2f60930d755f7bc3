------------------------------- MODULE MC_Panels -------------------------------
(* A page on which models are displayed one after another: the script of each  *)
(* display runs after its panels were added, over all panels of the page.      *)
EXTENDS ShowOps
CONSTANTS N, Clicks, Variant
VARIABLES listeners, open, clicks
vars == <<listeners, open, clicks>>
Init == listeners = <<>> /\ open = <<>> /\ clicks = <<>>
Display(n) ==
  /\ Len(open) + n <= N
  /\ open' = open \o [i \in 1..n |-> FALSE]
  /\ clicks' = clicks \o [i \in 1..n |-> 0]
  /\ LET l == listeners \o [i \in 1..n |-> 0] IN
     listeners' = [i \in DOMAIN l |->
       IF Variant = "again" \/ l[i] = 0 THEN l[i] + 1 ELSE l[i]]
Click(i) ==
  /\ clicks[i] < Clicks
  /\ clicks' = [clicks EXCEPT ![i] = @ + 1]
  /\ open' = [open EXCEPT ![i] = IF Odd(listeners[i]) THEN ~@ ELSE @]
  /\ UNCHANGED listeners
Next == (\E n \in 1..N : Display(n)) \/ (\E i \in DOMAIN open : Click(i))
Spec == Init /\ [][Next]_vars
\* a panel is open exactly after an odd number of clicks on it
Toggles == \A i \in DOMAIN open : open[i] = Odd(clicks[i])
================================================================================
