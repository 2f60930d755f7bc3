------------------------------- MODULE MC_Warn -------------------------------
(* Calls which filter warnings by changing the filters of the process and      *)
(* putting them back: every history of calls, switched on or off, returning or *)
(* failing through any number of callers.                                      *)
EXTENDS WarnOps
CONSTANTS MaxDepth, MaxCalls, Acts, Cats, Variant
VARIABLES stack, filters, shower, saved, n
vars == <<stack, filters, shower, saved, n>>
\* stack: filtering calls as they were asked for (the intent). filters, shower:
\* state of the process; saved: per call, what to put back
Init == /\ stack = <<Root>> /\ filters = <<[act |-> "always", cat |-> "W"]>>
        /\ shower = 1 /\ saved = <<>> /\ n = 1
Calls == [act : Acts, cat : Cats, rec : BOOLEAN, on : BOOLEAN]
Enter(c) ==
  /\ Len(saved) < MaxDepth /\ n <= MaxCalls /\ n' = n + 1
  /\ LET f == [act |-> c.act, cat |-> c.cat]
         does == IF Variant = "deaf" THEN TRUE ELSE c.on
         keep == [filters |-> filters, shower |-> shower, on |-> c.on] IN
     /\ stack' = IF c.on THEN Append(stack, [act |-> c.act, cat |-> c.cat,
                                    rec |-> IF c.rec THEN n + 1 ELSE 0])
                 ELSE stack
     /\ filters' = IF ~does THEN filters
                   ELSE IF Variant = "behind" THEN Append(filters, f)
                   ELSE <<f>> \o filters
     /\ shower' = IF does /\ c.rec THEN n + 1 ELSE shower
     /\ saved' = Append(saved, keep)
\* k calls end at once
Leave(k, fails) ==
  /\ k <= Len(saved)
  /\ LET i == Len(saved) - k + 1
         m == Cardinality({j \in i..Len(saved) : saved[j].on}) IN
     /\ stack' = SubSeq(stack, 1, Len(stack) - m)
     /\ saved' = SubSeq(saved, 1, i - 1)
     /\ IF Variant = "return" /\ fails THEN UNCHANGED <<filters, shower>>
        ELSE filters' = saved[i].filters /\ shower' = saved[i].shower
     /\ UNCHANGED n
Next == \/ \E c \in Calls : Enter(c)
        \/ Leave(1, FALSE)
        \/ \E k \in 1..Len(saved) : Leave(k, TRUE)
Spec == Init /\ [][Next]_vars
First(c) == CHOOSE i \in DOMAIN filters : Concerns(filters[i], c)
  /\ \A j \in DOMAIN filters : Concerns(filters[j], c) => i <= j
Shown(c) == LET act == filters[First(c)].act IN
  CASE act = "ignore" -> 0 [] act = "error" -> -1 [] OTHER -> shower
AsAsked == \A c \in Cats \ {"W"} : Shown(c) = Outcome(stack, c)
Restored == saved = <<>> => /\ filters = <<[act |-> "always", cat |-> "W"]>>
                            /\ shower = 1
==============================================================================
