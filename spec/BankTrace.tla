------------------------------- MODULE BankTrace -------------------------------
(* One call of the real code.                                                  *)
(* kind bank: [bank: lead, size, re, im (taps), x, xi (imaginary part), s (1   *)
(*   if not strided), hwr (negative values are cut), got: rows of [re, im],    *)
(*   complex]; refuse: it has to be refused                                    *)
(* kind input, output: the same, for the analytic signal of x, or of the rows   *)
(*   (of which there are four samples)                                         *)
(* kind cut: [x, th, got]: values below th become th                           *)
(* kind strided: [x, re, im (kernel), s, got: [re, im]]                        *)
EXTENDS BankOps, Batch
VARIABLES tid, done
vars == <<tid, done>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ done = FALSE
Cut(z) == IF T.hwr /\ z < 0 THEN 0 ELSE z
Row(j, a, b, sg, c, d) == LET f == T.bank[j] dl == Delay(T.bank, j) IN
  [k \in 1..Columns(T.bank, Len(T.x), T.s) |->
     Cut(Cell(a, b, dl, k - 1, T.s) + sg * Cell(c, d, dl, k - 1, T.s))]
BadRow(j) ==
  LET f == T.bank[j]
      xi == IF T.kind = "input" THEN Quarter(T.x) ELSE T.xi
      re == Row(j, T.x, f.re, -1, xi, f.im)
      im == IF T.kind = "output" THEN Quarter(re)
            ELSE Row(j, T.x, f.im, 1, xi, f.re)
      Cmp(g, e, nm) ==
        IF Len(g) # Len(e) THEN {nm \o " of row " \o ToString(j) \o " has "
                                 \o ToString(Len(g)) \o " cells, not " \o ToString(Len(e))}
        ELSE LET d == {k \in 1..Len(e) : g[k] # e[k]} IN
             IF d = {} THEN {} ELSE {nm \o " of row " \o ToString(j) \o " differs at "
                                     \o ToString(d)}
  IN Cmp(T.got[j].re, re, "real part")
     \cup (IF T.complex THEN Cmp(T.got[j].im, im, "imaginary part") ELSE {})
BadBank ==
  IF Len(T.got) # Len(T.bank) THEN {"rows " \o ToString(Len(T.got))}
  ELSE UNION {BadRow(j) : j \in 1..Len(T.bank)}
BadStrided ==
  LET n == Len(T.re) w == MaxOf({0, IF Len(T.x) < n THEN 0
                                    ELSE 1 + (Len(T.x) - n) \div T.s})
      E(taps) == [k \in 1..w |-> Conv(T.x, taps, (k - 1) * T.s + n - 1)]
  IN (IF T.got.re # E(T.re) THEN {"real part " \o ToString(T.got.re)
                                  \o " not " \o ToString(E(T.re))} ELSE {})
     \cup (IF T.complex /\ T.got.im # E(T.im) THEN {"imaginary part"} ELSE {})
Bad ==
  IF T.refuse THEN (IF T.err = "ValueError" \/ T.err = "TypeError" THEN {}
                    ELSE {"conflicting options accepted: " \o T.err}) ELSE
  IF T.err # "" THEN {"raised " \o T.err} ELSE
  CASE T.kind \in {"bank", "input", "output"} -> BadBank
    [] T.kind = "cut" ->
         IF T.got = [k \in 1..Len(T.x) |-> MaxOf({T.x[k], T.th})] THEN {}
         ELSE {"cut to " \o ToString(T.got)}
    [] T.kind = "strided" -> BadStrided
    [] OTHER -> {"unknown kind"}
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ LET b == Bad IN Verdict(tid, b = {}, 1, Join(b))
Spec == Init /\ [][Next]_vars
================================================================================
