------------------------------ MODULE MC_Settings ------------------------------
(* Histories of typing, applying, editing the file by hand and restarting over *)
(* a few keys, with a reference settlement that satisfies SettingsOps.         *)
EXTENDS SettingsOps, TLC
CONSTANTS Depth,      \* edits pending at most
          Raw,        \* TRUE: a restart takes the file as it is (defective)
          NoOrder     \* TRUE: bounds are not exchanged (defective)
N(x) == [c |-> "num", v |-> x]
Bad == [c |-> "bad", v |-> 0]
Keys == {"n", "w", "f0", "f1", "par", "nj"}
Kind == [n |-> [kind |-> "pow2"], w |-> [kind |-> "w"],
         f0 |-> [kind |-> "f"], f1 |-> [kind |-> "f"],
         par |-> [kind |-> "bool"], nj |-> [kind |-> "posint", none |-> FALSE]]
Texts == [n |-> {N(3 * SC), N(8 * SC + 1), Bad},
          w |-> {N(0), N(20 * SC), N(HUGE)},
          f0 |-> {N(5), N(NINF)},
          f1 |-> {N(5), N(4), Bad},
          par |-> {N(0), N(SC)},
          nj |-> {N(-3), Bad}]
Init0 == [n |-> N(8 * SC), w |-> N(8 * SC), f0 |-> N(5), f1 |-> N(9),
          par |-> N(0), nj |-> N(4 * SC)]
Whole1(t) == IF Exact(t) THEN Whole(t) ELSE SC
Num(t) == IF t.c = "num" THEN t.v ELSE 0
\* reference settlement
Settle(e) ==
  LET n == SC * NextPow2(Whole1(e.n) \div SC)
      a == Num(e.f0)
      b == Num(e.f1)
      p == IF NoOrder THEN <<a, b>>
           ELSE IF a = b THEN <<5, 9>> ELSE <<Min(a, b), Max(a, b)>>
  IN [n |-> n, w |-> IF e.w = N(HUGE) THEN n ELSE Min(Whole1(e.w), n),
      f0 |-> p[1], f1 |-> p[2],
      par |-> IF e.par = N(0) THEN 0 ELSE SC,
      nj |-> IF Exact(e.nj) THEN Whole(e.nj) ELSE 4 * SC]
Text(s) == [k \in Keys |-> N(s[k])]
VARIABLES entries, file, params, fresh
vars == <<entries, file, params, fresh>>
\* file: what the next start reads; fresh: nothing edited since the last settle
Init == /\ entries = Init0 /\ file = Text(Settle(Init0))
        /\ params = Settle(Init0) /\ fresh = TRUE
Edit(k) == \E t \in Texts[k] : /\ entries' = [entries EXCEPT ![k] = t]
                               /\ fresh' = FALSE
                               /\ UNCHANGED <<file, params>>
HandEdit(k) == \E t \in Texts[k] : /\ file' = [file EXCEPT ![k] = t]
                                   /\ fresh' = FALSE
                                   /\ UNCHANGED <<entries, params>>
To(s) == /\ entries' = Text(s) /\ file' = Text(s) /\ params' = s
         /\ fresh' = TRUE
Apply == To(Settle(entries))
Restart == To(IF Raw THEN [k \in Keys |-> file[k].v] ELSE Settle(file))
Next == (\E k \in Keys : Edit(k) \/ HandEdit(k)) \/ Apply \/ Restart
Spec == Init /\ [][Next]_vars
\* at most a few edits pending (entries and file), to keep the space small
Bounded == Cardinality({k \in Keys : entries[k] # N(params[k])})
           + Cardinality({k \in Keys : file[k] # N(params[k])}) <= Depth
Domain ==
  /\ params.n >= SC /\ (params.n % SC) = 0 /\ IsPow2(params.n \div SC)
  /\ params.w >= SC /\ params.w <= params.n /\ (params.w % SC) = 0
  /\ params.f0 < params.f1
  /\ params.par \in {0, SC} /\ IsPos(params.nj)
Agree == fresh => entries = Text(params) /\ file = Text(params)
\* what SettingsOps asks of a settlement holds of the reference one
Refines ==
  LET s == Settle(entries) IN
  /\ Ok(Kind.n, entries.n, s.n) /\ Ok(Kind.nj, entries.nj, s.nj)
  /\ Ok(Kind.par, entries.par, s.par)
  /\ WindowOk(entries.w, s.n, s.w)
  /\ BoundsOk(entries.f0, entries.f1, s.f0, s.f1)
Stable == Settle(Text(Settle(entries))) = Settle(entries)
\* settling again what nobody touched changes nothing
Reproduces == [][(fresh /\ fresh') => params' = params]_vars
================================================================================
