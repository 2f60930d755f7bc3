-------------------------------- MODULE MC_Doc --------------------------------
(* Reading descriptions of parameters, line by line.                           *)
EXTENDS ShowOps, TLC
CONSTANTS N, Depth, Variant
VARIABLES lines, pos, indent, cur, items
vars == <<lines, pos, indent, cur, items>>
Inf == 99
Line(i, k) == [ind |-> i, toks |-> <<[words |-> <<ToString(k)>>, suf |-> ""]>>,
               name |-> ToString(k)]
Init == /\ \E n \in 1..N : \E f \in [1..n -> 0..Depth] :
             lines = [k \in 1..n |-> Line(f[k], k)]
        /\ pos = 1 /\ indent = Inf /\ cur = <<>> /\ items = <<>>
Opening(i) == CASE Variant = "deeper" -> i < indent
                [] Variant = "last" -> TRUE
                [] OTHER -> i <= indent
Read ==
  /\ pos <= Len(lines)
  /\ LET l == lines[pos] IN
     IF Opening(l.ind)
     THEN /\ items' = IF cur = <<>> THEN items ELSE Append(items, cur)
          /\ cur' = <<pos>> /\ indent' = l.ind
     ELSE cur' = Append(cur, pos) /\ UNCHANGED <<items, indent>>
  /\ pos' = pos + 1 /\ UNCHANGED lines
Finish == pos = Len(lines) + 1 /\ pos' = pos + 1 /\ items' = Append(items, cur)
          /\ cur' = <<>> /\ UNCHANGED <<lines, indent>>
Next == Read \/ Finish
Spec == Init /\ [][Next]_vars
Done == pos = Len(lines) + 2
\* every line is shown once, in order
Everything == Done => Flat(items) = [k \in DOMAIN lines |-> k]
\* each item is what its first line opens
Faithful == Done => \A i \in DOMAIN items :
  [k \in DOMAIN items[i] |-> ToString(items[i][k])] = Item(lines, items[i][1])
\* well-indented descriptions of parameters are not split or merged
Wellformed == \A k \in DOMAIN lines : lines[k].ind >= lines[1].ind
OnePer == (Done /\ Wellformed) =>
  {items[i][1] : i \in DOMAIN items} = {k \in DOMAIN lines : lines[k].ind = lines[1].ind}
================================================================================
