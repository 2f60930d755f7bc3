------------------------------ MODULE OutBuffer ------------------------------
(* Array functions as straight-line programs over three registers: the input, *)
(* the output buffer and a scratch array. Each instruction writes a register  *)
(* with an operation on two registers. Values are symbolic (a hashed term: an *)
(* integer computed by a mixing function without short collisions for terms   *)
(* of this size). When the buffer is the input itself, registers in and out   *)
(* are one and the same.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT TrustTmp
VARIABLES prog, pc, sep, ali
vars == <<prog, pc, sep, ali>>
Src == {"in", "out", "tmp"}
Dst == {"out", "tmp"}
Instr == [dst : Dst, a : Src, b : Src]
Progs == {<<x, y, z>> : x \in Instr, y \in Instr, z \in {i \in Instr : i.dst = "out"}}
Mix(k, x, y) == ((k * 7919) + (x * 611) + (y * 1009) + (((x * y) % 4093) * 31)) % 10007
\* registers with a separate buffer, and with one memory for input and buffer
Init == /\ prog \in Progs /\ pc = 1
        /\ sep = [in |-> 11, out |-> 0, tmp |-> 5]
        /\ ali = [io |-> 11, tmp |-> 5]
R(s, r) == IF r = "tmp" THEN s.tmp ELSE s.io
Step == /\ pc <= 3
        /\ LET i == prog[pc]
               v == Mix(pc, sep[i.a], sep[i.b])
               w == Mix(pc, R(ali, i.a), R(ali, i.b))
           IN /\ sep' = [sep EXCEPT ![i.dst] = v]
              /\ ali' = IF i.dst = "tmp" THEN [ali EXCEPT !.tmp = w]
                        ELSE [ali EXCEPT !.io = w]
        /\ pc' = pc + 1 /\ UNCHANGED prog
Next == Step
Spec == Init /\ [][Next]_vars
Writes(r) == {k \in 1..3 : prog[k].dst = r}
Reads(k, r) == prog[k].a = r \/ prog[k].b = r
\* never reads what it has not computed
Defined == \A k \in 1..3 :
             /\ Reads(k, "out") => \E j \in Writes("out") : j < k
             /\ Reads(k, "tmp") => \E j \in Writes("tmp") : j < k
\* the rule the functions follow: the input is not read after the buffer is written
Rule == \A k \in 1..3 : Reads(k, "in") =>
          (~ \E j \in Writes("out") : j < k) \/ TrustTmp
Sound == (pc = 4 /\ Defined /\ Rule) => sep.out = ali.io
\* the input is intact with a buffer of its own
Intact == sep.in = 11
=============================================================================
