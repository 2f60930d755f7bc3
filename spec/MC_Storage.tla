------------------------------ MODULE MC_Storage ------------------------------
(* All short programs on one storage.                                          *)
EXTENDS StorageOps
CONSTANTS Keys, MaxIdx, MaxOps
VARIABLES s, n, o
vars == <<s, n, o>>
Ops == [op : {"append"}, k : Keys, v : {n + 1}, i : -1..MaxIdx]
       \cup {[op |-> "reset"]} \cup {[op |-> "save", v |-> b] : b \in {0, 1}}
Init == s = InitS(TRUE) /\ n = 0 /\ o = [op |-> "none"]
Next == n < MaxOps /\ n' = n + 1 /\ \E x \in Ops : o' = x /\ s' = Apply(s, x)
Spec == Init /\ [][Next]_vars
Places == [][o'.op = "append" =>
  /\ (s.save => \E j \in DOMAIN s'.m[o'.k] :
        /\ s'.m[o'.k][j] = o'.v
        /\ o'.i # -1 => j = o'.i + 1
        /\ o'.i = -1 => j = Len(Get(s, o'.k)) + 1)
  /\ (~s.save => s'.m = s.m)
  \* every other place is what it was, or holds nothing
  /\ \A k \in DOMAIN s'.m : \A j \in DOMAIN s'.m[k] :
       (k # o'.k \/ s'.m[k][j] # o'.v) =>
         s'.m[k][j] = IF j <= Len(Get(s, k)) THEN Get(s, k)[j] ELSE 0
  /\ \A k \in DOMAIN s.m : Len(s'.m[k]) >= Len(s.m[k])]_vars
Forgets == [][o'.op = "reset" => DOMAIN s'.m = {}]_vars
===============================================================================
