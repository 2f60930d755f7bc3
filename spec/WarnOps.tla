------------------------------- MODULE WarnOps -------------------------------
(* What becomes of a warning raised within nested calls which filter warnings. *)
(* A call which filters is [act, cat, rec]: what to do ("ignore", "always",    *)
(* "error") with which category ("W": all), and where it records (0: nowhere). *)
EXTENDS Integers, Sequences, FiniteSets
Root == [act |-> "always", cat |-> "W", rec |-> 1]
Concerns(f, c) == f.cat \in {"W", c}
Last(s) == CHOOSE i \in s : \A j \in s : j <= i
\* -1: raised as an error, 0: dropped, otherwise: the number of the recorder
Outcome(stack, c) ==
  LET act == stack[Last({i \in DOMAIN stack : Concerns(stack[i], c)})].act IN
  CASE act = "ignore" -> 0
    [] act = "error" -> -1
    [] OTHER -> stack[Last({i \in DOMAIN stack : stack[i].rec > 0})].rec
Pop(s) == SubSeq(s, 1, Len(s) - 1)
==============================================================================
