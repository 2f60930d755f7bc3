------------------------------ MODULE StorageOps ------------------------------
(* Optional storage: a map from keys to sequences of values, 0 for a place    *)
(* that holds nothing.  State [save, m]; m has only the keys used.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Empty == [x \in {} |-> <<>>]
InitS(save) == [save |-> save, m |-> Empty]
Get(s, k) == IF k \in DOMAIN s.m THEN s.m[k] ELSE <<>>
\* i = -1: no index
Put(q, v, i) == IF i = -1 THEN Append(q, v)
                ELSE [j \in 1..(IF i + 1 > Len(q) THEN i + 1 ELSE Len(q)) |->
                        IF j = i + 1 THEN v ELSE IF j <= Len(q) THEN q[j] ELSE 0]
AppendOp(s, k, v, i) ==
  IF ~s.save THEN s ELSE [s EXCEPT !.m = (k :> Put(Get(s, k), v, i)) @@ @]
ResetOp(s) == [s EXCEPT !.m = Empty]
SaveOp(s, b) == [s EXCEPT !.save = b]
Apply(s, o) == CASE o.op = "append" -> AppendOp(s, o.k, o.v, o.i)
                 [] o.op = "reset" -> ResetOp(s)
                 [] o.op = "save" -> SaveOp(s, o.v = 1)
                 [] OTHER -> s
\* observed state: sequence of [k, vals]
Shows(s, obs) == /\ Len(obs) = Cardinality(DOMAIN s.m)
                 /\ \A j \in DOMAIN obs : obs[j].k \in DOMAIN s.m
                                          /\ obs[j].vals = s.m[obs[j].k]
===============================================================================
