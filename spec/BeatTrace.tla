------------------------------- MODULE BeatTrace -------------------------------
(* One call of the real code; values are codes, equal codes are equal values.  *)
(* sort: [p, keys (-1: energies), desc, got]   out: [p, got: 2 x f d a p]      *)
(* fit: [p (fitted), on (disambiguation), r (residuals compared: -1 0 1), got, *)
(*   beat (partials of the resulting sound)]                                   *)
(* track: [p, single (f d a), say, got: modes, kept (stored decision)]         *)
EXTENDS BeatOps, Batch
VARIABLES tid, done
vars == <<tid, done>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ done = FALSE
Modes(p) == [k \in 1..2 |-> <<p[k + 2], p[k + 4], p[k], p[k + 6]>>]
BadSort ==
  LET k1 == IF T.keys = <<>> THEN Energy(T.p, 1) ELSE T.keys[1]
      k2 == IF T.keys = <<>> THEN Energy(T.p, 2) ELSE T.keys[2]
  IN IF T.got \in Sorted(T.p, k1, k2, T.desc) THEN {} ELSE
     {"sorted into " \o ToString(T.got)}
BadFit ==
  LET e == IF T.on THEN Chosen(T.p, T.r, 0) ELSE {T.p} IN
  IF T.got \notin e THEN {"kept " \o ToString(T.got)} ELSE
  IF T.beat # T.got THEN {"the sound is of " \o ToString(T.beat)} ELSE {}
BadTrack ==
  LET e == IF T.say THEN Modes(T.p)
           ELSE <<<<T.single[1], T.single[2], T.single[3], 0>>>>
  IN (IF T.got # e THEN {"modes " \o ToString(T.got)} ELSE {})
     \cup (IF T.kept # T.say THEN {"decision kept"} ELSE {})
Bad == IF T.err # "" THEN {"raised " \o T.err} ELSE
  CASE T.kind = "sort" -> BadSort
    [] T.kind = "out" -> (IF T.got = Modes(T.p) THEN {} ELSE {"modes " \o ToString(T.got)})
    [] T.kind = "fit" -> BadFit
    [] OTHER -> BadTrack
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ LET b == Bad IN Verdict(tid, b = {}, 1, Join(b))
Spec == Init /\ [][Next]_vars
================================================================================
