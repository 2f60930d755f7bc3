-------------------------------- MODULE Bisect ---------------------------------
(* Bisection of [0, 2^(Steps+1)] (in units of the final accuracy) against an   *)
(* adversary who chooses the sign of the function at every point only when it  *)
(* is asked.  seen maps the points asked for to their signs.  Ends may be      *)
(* given in either order.                                                      *)
EXTENDS Integers, FiniteSets
CONSTANTS Steps, Variant
VARIABLES pc, seen, lo, hi, a, k, n, given
vars == <<pc, seen, lo, hi, a, k, n, given>>
RECURSIVE Pow2(_)
Pow2(e) == IF e = 0 THEN 1 ELSE 2 * Pow2(e - 1)
Size == Pow2(Steps + 1)
Signs == {-1, 0, 1}
Init ==
  /\ \E s1, s2 \in Signs, turn \in BOOLEAN :
       LET l == IF turn THEN Size ELSE 0 h == IF turn THEN 0 ELSE Size
           f == [p \in {0, Size} |-> IF p = l THEN s1 ELSE s2]
           swap == Variant # "noswap" /\ s1 > s2
       IN /\ seen = f /\ given = <<l, h>>
          /\ lo = (IF swap THEN h ELSE l) /\ hi = (IF swap THEN l ELSE h)
          /\ pc = (IF s1 * s2 > 0 THEN "refused" ELSE "go")
  /\ a = Size \div 2 /\ k = 0 /\ n = 2
Max == IF Variant = "short" THEN Steps - 1 ELSE Steps
Ask(s) ==
  /\ pc = "go" /\ k < Max /\ k' = k + 1 /\ n' = n + 1
  /\ s \in (IF a \in DOMAIN seen THEN {seen[a]} ELSE Signs)
  /\ seen' = [p \in DOMAIN seen \cup {a} |-> IF p = a THEN s ELSE seen[p]]
  /\ IF s < 0 \/ (s = 0 /\ Variant = "pass")
     THEN lo' = a /\ a' = (a + hi) \div 2 /\ UNCHANGED <<hi, pc>>
     ELSE IF s > 0
          THEN hi' = a /\ a' = (lo + a) \div 2 /\ UNCHANGED <<lo, pc>>
          ELSE pc' = "done" /\ UNCHANGED <<lo, hi, a>>
  /\ UNCHANGED given
Stop == pc = "go" /\ k = Max /\ pc' = "done" /\ UNCHANGED <<seen, lo, hi, a, k, n, given>>
Next == (\E s \in Signs : Ask(s)) \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Abs(z) == IF z < 0 THEN -z ELSE z
Bracket == pc = "go" => seen[lo] <= 0 /\ seen[hi] >= 0
Halves == pc = "go" => Abs(hi - lo) = Size \div Pow2(k)
Inside == \A p \in DOMAIN seen : p \in 0..Size
Bounded == n <= Steps + 2
Refused == (pc = "refused") <=> seen[given[1]] * seen[given[2]] > 0 /\ k = 0
\* whatever the function is elsewhere, it changes sign or is zero near a
Near == {p \in DOMAIN seen : Abs(p - a) <= 1}
Found == pc = "done" => \/ \E p \in Near : seen[p] = 0
                        \/ \E p, q \in Near : seen[p] < 0 /\ seen[q] > 0
\* a zero met on the way is the answer
Exact == pc = "done" =>
  \A p \in DOMAIN seen \ {0, Size} : seen[p] = 0 => a = p
Ends == <>(pc # "go")
================================================================================
