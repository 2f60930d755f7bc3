---------------------------- MODULE ModeTableOps ----------------------------
(* From tracks to the mode table.  A track is [lin, beats, has, dec]:          *)
(* lin the parameters <<f, d, a>> of the single partial, beats the two tuples  *)
(* <<f, d, a, p>>, and how a beat is decided: dec "plain" (no beats at all),   *)
(* "never", "script" (say), "almost" (both amplitudes and the frequency        *)
(* difference above the threshold; in half machine epsilons, -1 not a number). *)
(* Values are codes, 0 for anything that is not finite, 1 for zero.            *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
Decide(t) == CASE t.dec \in {"plain", "never"} -> FALSE
               [] t.dec = "script" -> t.say
               [] t.dec = "almost" -> /\ t.a0 > 2 * t.th /\ t.a1 > 2 * t.th
                                      /\ ~t.dfnan /\ Abs(t.df) > 2 * t.th
Cols(t) == IF t.dec = "plain" THEN <<t.lin>>
           ELSE IF Decide(t) THEN t.beats ELSE <<t.lin \o <<1>>>>
Finite(c) == \A i \in DOMAIN c : c[i] # 0
RECURSIVE Flat(_)
Flat(ts) == IF ts = <<>> THEN <<>> ELSE Cols(Head(ts)) \o Flat(Tail(ts))
Table(ts) == SelectSeq(Flat(ts), Finite)
Rows(kind) == IF kind = "plain" THEN 3 ELSE 4
===============================================================================
