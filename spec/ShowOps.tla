-------------------------------- MODULE ShowOps --------------------------------
(* What notebook displays show. A line of documentation is [ind, toks] with    *)
(* tokens [words, suf]: words of plain text or of a reference, and a suffix.   *)
EXTENDS Integers, Sequences, FiniteSets
\* lines that open an item: none before them is indented less
Opens(ls, j) == \A k \in 1..(j - 1) : ls[j].ind <= ls[k].ind
NextOpen(ls, j) == LET s == {k \in (j + 1)..Len(ls) : Opens(ls, k)} IN
  IF s = {} THEN Len(ls) + 1 ELSE CHOOSE k \in s : \A m \in s : k <= m
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
TokWords(t) == [i \in DOMAIN t.words |->
  IF i = Len(t.words) THEN t.words[i] \o t.suf ELSE t.words[i]]
LineWords(l) == Flat([i \in DOMAIN l.toks |-> TokWords(l.toks[i])])
Item(ls, j) == Flat([k \in 1..(NextOpen(ls, j) - j) |-> LineWords(ls[j + k - 1])])
\* what is said of a parameter: its items, or just its name
Said(ls, k) ==
  LET js == {j \in DOMAIN ls : Opens(ls, j) /\ ls[j].name = k} IN
  IF js = {} THEN <<k>>
  ELSE Item(ls, CHOOSE j \in js : TRUE)
\* one node per parameter, nested; models can be folded
RECURSIVE Kids(_)
Kids(m) == [i \in DOMAIN m.params |->
  LET p == m.params[i] IN
    [words |-> Said(m.lines, p.name), folds |-> p.model,
     kids |-> IF p.model THEN Kids(p.of[1]) ELSE <<>>]]
Tree(m) == <<[words |-> <<m.cls>>, folds |-> TRUE, kids |-> Kids(m)]>>
\* clicks that unfold
Odd(n) == n % 2 = 1
================================================================================
