---------------------------- MODULE ModeTableTrace ----------------------------
(* Mode tables of real fits.  [kind, tracks, err, rows, table, access, saved]: *)
(* access lists what freqs_, decays_, amps_ (phases_) show; saved the          *)
(* decisions in the storage when saving is on (look).                          *)
EXTENDS ModeTableOps, Batch
VARIABLES tid, done
vars == <<tid, done>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ done = FALSE
Bad == LET e == Table(T.tracks) IN
  IF T.err # "" THEN {"raised " \o T.err} ELSE
  (IF T.rows # Rows(T.kind) THEN {ToString(T.rows) \o " rows"} ELSE {})
  \cup (IF T.table # e THEN {"table " \o ToString(T.table) \o " instead of "
                             \o ToString(e)} ELSE {})
  \cup (IF \E r \in DOMAIN T.access :
             T.access[r] # [k \in DOMAIN e |-> e[k][r]]
        THEN {"attributes show " \o ToString(T.access)} ELSE {})
  \cup (IF T.look /\ T.saved # [k \in DOMAIN T.tracks |-> Decide(T.tracks[k])]
        THEN {"saved decisions " \o ToString(T.saved)} ELSE {})
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ LET b == Bad IN Verdict(tid, b = {}, 1, Join(b))
Spec == Init /\ [][Next]_vars
===============================================================================
