-------------------------- MODULE DeprecationTrace --------------------------
(* One real call: [layer, given: seq of [name, v], ref, got: seqs of [name, v] *)
(* (effective parameters without the call's assignments, and with them),      *)
(* warns: seq of [old, new], err].                                            *)
EXTENDS DeprecationOps, Batch
VARIABLES tid, done
vars == <<tid, done>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ done = FALSE
\* a cloned model is built from the effects: every given name has been resolved
Lay == IF T.layer = "clone" THEN T.of ELSE T.layer
L(g) == Layer(Lay, g.name)
Idx == 1..Len(T.given)
Is(g, old) == Lay \in {"sinusoidal", "modal", "sample"}
              /\ g.name # <<>> /\ g.name[Len(g.name)] = old /\ L(g).warns # <<>>
Max2(a, b) == IF a >= b THEN a ELSE b
Plain == {k \in Idx : ~Is(T.given[k], "safe_sine_len")}
\* value assigned to a name by the arguments in K
Assigned(n, K) == {k \in K : L(T.given[k]).name = n}
Value(n) ==
  \* values are texts; d: the same number, where it is computed with
  LET s == {k \in Idx \ Plain : L(T.given[k]).name = n}
      p == Assigned(n, Plain)
      pv == {T.given[k].v : k \in p}
  IN IF s # {} THEN LET m == IF p = {} THEN 1 ELSE T.given[CHOOSE k \in p : TRUE].d
                    IN {ToString(Max2(T.given[CHOOSE k \in s : TRUE].d, m)) \o ".0"}
     ELSE pv
RECURSIVE Flat(_, _)
Flat(k, acc) == IF k > Len(T.given) THEN acc ELSE Flat(k + 1, acc \o L(T.given[k]).warns)
Count(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
Warns == [k \in 1..Len(T.warns) |-> <<T.warns[k].old, T.warns[k].new>>]
Bad ==
  IF T.err # "" THEN {"raised " \o T.err} ELSE
  LET want == IF T.layer = "clone" THEN <<>> ELSE Flat(1, <<>>)
      ref == [n \in {T.ref[k].name : k \in 1..Len(T.ref)} |->
              T.ref[CHOOSE k \in 1..Len(T.ref) : T.ref[k].name = n].v]
      got == [n \in {T.got[k].name : k \in 1..Len(T.got)} |->
              T.got[CHOOSE k \in 1..Len(T.got) : T.got[k].name = n].v]
      names == DOMAIN ref \cup DOMAIN got
      Ok(n) == LET v == Value(n) IN
               IF v # {} THEN n \in DOMAIN got /\ got[n] \in v
               ELSE n \in DOMAIN got /\ n \in DOMAIN ref /\ got[n] = ref[n]
  IN {"parameter " \o ToString(n) : n \in {m \in names : ~Ok(m)}}
     \cup {"lost " \o ToString(L(T.given[k]).name) :
           k \in {j \in Idx : L(T.given[j]).name \notin DOMAIN got}}
     \cup {"warning " \o ToString(w) \o " given " \o ToString(Count(Warns, w))
           \o " times instead of " \o ToString(Count(want, w)) :
           w \in {x \in {want[k] : k \in 1..Len(want)} \cup
                        {Warns[k] : k \in 1..Len(Warns)} :
                  Count(want, x) # Count(Warns, x)}}
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ LET b == Bad IN Verdict(tid, b = {}, 1, Join(b))
Spec == Init /\ [][Next]_vars
=============================================================================
