--------------------------------- MODULE Trim ---------------------------------
(* The trim region <<a, b>> of an audio of n samples (0: none loaded), moved by *)
(* loads, typed times, clicks (press, then release) and refreshes of the shown *)
(* times. Drift (defective): showing a time may give it back one sample        *)
(* earlier. Stale (defective): a release outside of the plot leaves the click  *)
(* unfinished. Old (defective): loading keeps the region.                      *)
EXTENDS Integers, FiniteSets
CONSTANTS MaxN, Drift, Stale, Old
Out == -9
Abs(x) == IF x < 0 THEN -x ELSE x
Max(x, y) == IF x > y THEN x ELSE y
Min(x, y) == IF x < y THEN x ELSE y
SetA(v, b) == Min(b - 1, Max(0, v))
SetB(v, a, n) == Max(a + 1, Min(n, v))
Near(x, a, b) == IF Abs(x - a) < Abs(x - b) THEN {"a"}
                 ELSE IF Abs(x - a) > Abs(x - b) THEN {"b"} ELSE {"a", "b"}
VARIABLES n, a, b, side, tool, near, last
vars == <<n, a, b, side, tool, near, last>>
Init == /\ n = 0 /\ a = 0 /\ b = 0 /\ side = "" /\ tool = FALSE
        /\ near = {} /\ last = "start"
\* the shown times are written back
Refreshed(x, y) ==
  IF Drift THEN LET x2 == SetA(x - 1, y) IN <<x2, SetB(y - 1, x2, n)>>
  ELSE <<x, y>>
Load(m) == /\ n' = m /\ last' = "load"
           /\ IF Old /\ n > 0 THEN UNCHANGED <<a, b>>
              ELSE \E x \in 0..m - 1, y \in 1..m :
                     x < y /\ a' = x /\ b' = y
           /\ UNCHANGED <<side, tool, near>>
TypeA(v) == /\ n > 0 /\ a' = SetA(v, b) /\ last' = "typea"
            /\ UNCHANGED <<n, b, side, tool, near>>
TypeB(v) == /\ n > 0 /\ b' = SetB(v, a, n) /\ last' = "typeb"
            /\ UNCHANGED <<n, a, side, tool, near>>
Press(x) == /\ last' = "press"
            /\ IF tool THEN side' = "" /\ near' = {}
               ELSE IF n = 0 \/ side # "" \/ x = Out
                    THEN /\ UNCHANGED side
                         \* a press at x begins a click unless one is going on
                         /\ near' = IF x # Out /\ n > 0 /\ near = {}
                                    THEN Near(x, a, b) ELSE near
                    ELSE /\ side' \in Near(x, a, b)
                         /\ near' = Near(x, a, b)
            /\ UNCHANGED <<n, a, b, tool>>
Release(x) ==
  /\ near' = {}
  /\ IF tool \/ side = "" \/ n = 0
     THEN side' = "" /\ last' = "none" /\ UNCHANGED <<a, b>>
     ELSE IF x = Out
     THEN /\ side' = (IF Stale THEN side ELSE "") /\ last' = "none"
          /\ UNCHANGED <<a, b>>
     ELSE LET r == IF side = "a" THEN Refreshed(SetA(x, b), b)
                   ELSE Refreshed(a, SetB(x, a, n)) IN
          /\ a' = r[1] /\ b' = r[2] /\ side' = "" /\ last' = "click"
  /\ UNCHANGED <<n, tool>>
Tool == /\ tool' = ~tool /\ last' = "tool"
        /\ UNCHANGED <<n, a, b, side, near>>
Next == \/ \E m \in 1..MaxN : Load(m)
        \/ \E v \in -1..MaxN + 1 : TypeA(v) \/ TypeB(v)
        \/ \E x \in {Out} \cup (-1..MaxN + 1) : Press(x) \/ Release(x)
        \/ Tool
Spec == Init /\ [][Next]_vars
Region == n > 0 => 0 <= a /\ a < b /\ b <= n
OneSide == [][(last' # "load" /\ a' # a) => b' = b]_vars
Nearer == [][last' = "click" => /\ (a' # a => "a" \in near)
                                /\ (b' # b => "b" \in near)]_vars
Inert == [][(last' \in {"press", "none", "tool"}) => a' = a /\ b' = b]_vars
================================================================================
