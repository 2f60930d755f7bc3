----------------------------- MODULE StorageSteps -----------------------------
(* Clients appending to a shared storage, in the steps in which an append      *)
(* really happens: find or create the map, find or create the key's list,      *)
(* extend it, write.  With Locked, an append is one critical section.          *)
EXTENDS StorageOps
CONSTANTS Clients, Locked, Program(_)   \* Program(c): sequence of [k, v, i]

VARIABLES mem,     \* map id -> (key -> list id); the store's maps ever created
          lists,   \* list id -> sequence of values
          cur,     \* current map id, 0 none
          pc, loc, done, lock, order
vars == <<mem, lists, cur, pc, loc, done, lock, order>>

Init == /\ mem = <<>> /\ lists = <<>> /\ cur = 0
        /\ pc = [c \in Clients |-> "idle"]
        /\ loc = [c \in Clients |-> [map |-> 0, list |-> 0]]
        /\ done = [c \in Clients |-> 0] /\ lock = 0 /\ order = <<>>
Op(c) == Program(c)[done[c] + 1]

Begin(c) == /\ pc[c] = "idle" /\ done[c] < Len(Program(c))
            /\ Locked => lock = 0
            /\ lock' = IF Locked THEN c ELSE lock
            /\ order' = Append(order, Op(c))
            /\ pc' = [pc EXCEPT ![c] = IF cur = 0 THEN "newmap" ELSE "key"]
            /\ UNCHANGED <<mem, lists, cur, loc, done>>
NewMap(c) == /\ pc[c] = "newmap"
             /\ mem' = Append(mem, [x \in {} |-> 0]) /\ cur' = Len(mem) + 1
             /\ pc' = [pc EXCEPT ![c] = "key"]
             /\ UNCHANGED <<lists, loc, done, lock, order>>
Key(c) == /\ pc[c] = "key"
          /\ pc' = [pc EXCEPT ![c] =
               IF Op(c).k \in DOMAIN mem[cur] THEN "fetch" ELSE "newlist"]
          /\ UNCHANGED <<mem, lists, cur, loc, done, lock, order>>
NewList(c) == /\ pc[c] = "newlist"
              /\ lists' = Append(lists, <<>>)
              /\ mem' = [mem EXCEPT ![cur] = (Op(c).k :> Len(lists) + 1) @@ @]
              /\ pc' = [pc EXCEPT ![c] = "fetch"]
              /\ UNCHANGED <<cur, loc, done, lock, order>>
\* without the lock another client may have replaced the map: a key error
Lost(c) == /\ pc[c] = "fetch" /\ Op(c).k \notin DOMAIN mem[cur]
           /\ pc' = [pc EXCEPT ![c] = "error"]
           /\ UNCHANGED <<mem, lists, cur, loc, done, lock, order>>
Fetch(c) == /\ pc[c] = "fetch" /\ Op(c).k \in DOMAIN mem[cur]
            /\ loc' = [loc EXCEPT ![c].list = mem[cur][Op(c).k]]
            /\ pc' = [pc EXCEPT ![c] = IF Op(c).i = -1 THEN "write" ELSE "len"]
            /\ UNCHANGED <<mem, lists, cur, done, lock, order>>
\* how many places are missing, computed before extending
Length(c) == /\ pc[c] = "len"
             /\ loc' = [loc EXCEPT ![c].map =
                  LET miss == Op(c).i + 1 - Len(lists[loc[c].list])
                  IN IF miss > 0 THEN miss ELSE 0]
             /\ pc' = [pc EXCEPT ![c] = "extend"]
             /\ UNCHANGED <<mem, lists, cur, done, lock, order>>
Extend(c) == /\ pc[c] = "extend"
             /\ lists' = [lists EXCEPT ![loc[c].list] =
                            @ \o [j \in 1..loc[c].map |-> 0]]
             /\ pc' = [pc EXCEPT ![c] = "write"]
             /\ UNCHANGED <<mem, cur, loc, done, lock, order>>
Write(c) == /\ pc[c] = "write"
            /\ lists' = [lists EXCEPT ![loc[c].list] =
                 IF Op(c).i = -1 THEN Append(@, Op(c).v)
                 ELSE [@ EXCEPT ![Op(c).i + 1] = Op(c).v]]
            /\ done' = [done EXCEPT ![c] = @ + 1]
            /\ lock' = IF Locked THEN 0 ELSE lock
            /\ pc' = [pc EXCEPT ![c] = "idle"]
            /\ UNCHANGED <<mem, cur, loc, order>>
Next == \E c \in Clients : Begin(c) \/ NewMap(c) \/ Key(c) \/ NewList(c)
                           \/ Fetch(c) \/ Lost(c) \/ Length(c) \/ Extend(c) \/ Write(c)
Spec == Init /\ [][Next]_vars

State == IF cur = 0 THEN Empty ELSE [k \in DOMAIN mem[cur] |-> lists[mem[cur][k]]]
AllDone == \A c \in Clients : done[c] = Len(Program(c))
RECURSIVE Run(_, _)
Run(s, ops) == IF ops = <<>> THEN s
               ELSE Run(AppendOp(s, Head(ops).k, Head(ops).v, Head(ops).i), Tail(ops))
\* the outcome is that of some order of the operations: with the lock, of the
\* order in which the lock was taken
Atomic == AllDone => State = Run(InitS(TRUE), order).m
NoError == \A c \in Clients : pc[c] # "error"
NothingLost == AllDone =>
  \A c \in Clients : \A j \in DOMAIN Program(c) :
    LET o == Program(c)[j] IN
      \/ \E p \in DOMAIN State[o.k] : State[o.k][p] = o.v
      \/ \E d \in Clients : \E q \in DOMAIN Program(d) :
           <<d, q>> # <<c, j>> /\ Program(d)[q].k = o.k
           /\ Program(d)[q].i = o.i /\ o.i # -1
===============================================================================
