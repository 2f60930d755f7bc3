--------------------------- MODULE MC_Deprecation ---------------------------
(* A callable wrapped in a stack of renaming decorators, called with keyword  *)
(* arguments: every stack of up to MaxRules rules over Names, every set of    *)
(* arguments that names no target twice. The decorators run from the outermost *)
(* one; rename moves the value to the new name and warns.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Names, MaxRules, InnermostFirst, KeepOld
VARIABLES rules, given, kw, warns, i
vars == <<rules, given, kw, warns, i>>
Rules == [old : Names, new : Names]
\* a name is replaced once, and a chain is written from its oldest name
WellFormed(r) == /\ \A a, b \in 1..Len(r) : r[a].old = r[b].old => a = b
                 /\ \A a \in 1..Len(r) : r[a].old # r[a].new
                 /\ \A a, b \in 1..Len(r) : r[a].new = r[b].old => a < b
RECURSIVE Target(_, _)
Target(n, r) == IF \E a \in 1..Len(r) : r[a].old = n
                THEN Target(r[CHOOSE a \in 1..Len(r) : r[a].old = n].new, r) ELSE n
RECURSIVE Steps(_, _)
Steps(n, r) == IF \E a \in 1..Len(r) : r[a].old = n
               THEN LET x == r[CHOOSE a \in 1..Len(r) : r[a].old = n]
                    IN {x} \cup Steps(x.new, r)
               ELSE {}
Stacks == UNION {[1..n -> Rules] : n \in 0..MaxRules}
Init == /\ rules \in {r \in Stacks : WellFormed(r)}
        /\ given \in {g \in SUBSET Names : \A a, b \in g :
                      Target(a, rules) = Target(b, rules) => a = b}
        /\ kw = [n \in given |-> n]          \* the value is its first name
        /\ warns = <<>> /\ i = 1
At == IF InnermostFirst THEN Len(rules) + 1 - i ELSE i
Rename ==
  /\ i <= Len(rules)
  /\ i' = i + 1
  /\ LET r == rules[At] IN
     IF r.old \in DOMAIN kw
     THEN /\ kw' = [n \in (IF KeepOld THEN DOMAIN kw ELSE DOMAIN kw \ {r.old}) \cup {r.new} |->
                     IF n = r.new THEN kw[r.old] ELSE kw[n]]
          /\ warns' = Append(warns, r)
     ELSE UNCHANGED <<kw, warns>>
  /\ UNCHANGED <<rules, given>>
Next == Rename
Spec == Init /\ [][Next]_vars
Called == i > Len(rules)
\* the callable receives each value under its current name, and nothing else
Renamed == Called => /\ DOMAIN kw = {Target(n, rules) : n \in given}
                     /\ \A n \in given : kw[Target(n, rules)] = n
\* one warning per deprecated name met
Warned == Called => /\ {warns[a] : a \in 1..Len(warns)} =
                       UNION {Steps(n, rules) : n \in given}
                    /\ \A a, b \in 1..Len(warns) : warns[a] = warns[b] => a = b
Quiet == (\A n \in given : Target(n, rules) = n) => warns = <<>>
=============================================================================
