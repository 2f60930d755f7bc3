------------------------------- MODULE GammaOps -------------------------------
(* Settings of a gammatone filter and the quantities derived from them. Times  *)
(* are in hundred thousandths of 1/(2 pi), frequencies in kHz (g), bandwidths  *)
(* in thousandths of Hz, phases in hundred thousandths of 1000 radians.        *)
(* A setting is [k |-> "none" | "num" | "fn", v |-> value]; functions given as *)
(* settings are fixed: see Fn*.                                                *)
EXTENDS Integers, Sequences, FiniteSets
None == [k |-> "none", v |-> 0]
Num(v) == [k |-> "num", v |-> v]
Fn == [k |-> "fn", v |-> 0]
Erb(g) == 6230 * g * g + 9339 * g + 28520
FnBandwidth(s) == 10000 * s.g
FnLead(s) == 100000 * s.n
FnPhase(s) == 100 * s.n
FnScale(s) == 2 * s.n
Bandwidth(s) == CASE s.bw.k = "none" -> Erb(s.g) [] s.bw.k = "num" -> 1000 * s.bw.v
                  [] OTHER -> FnBandwidth(s)
\* delay of the peak of the envelope after the onset
Raw(s) == (100000000 * (s.n - 1)) \div Bandwidth(s)
Lead(s) == CASE s.tc.k = "none" -> Raw(s) [] s.tc.k = "num" -> s.tc.v
             [] OTHER -> FnLead(s)
GroupDelay(s) == Raw(s) - Lead(s)
Phase(s) == CASE s.phi.k = "none" -> -(s.g * Lead(s)) [] s.phi.k = "num" -> 100 * s.phi.v
              [] OTHER -> FnPhase(s)
Scale(s) == CASE s.a.k = "none" -> 0 [] s.a.k = "num" -> s.a.v [] OTHER -> FnScale(s)
\* what is read
Read(s) == [f |-> s.g, n |-> s.n, bw |-> Bandwidth(s), raw |-> Raw(s),
            tc |-> Lead(s), gd |-> GroupDelay(s), phi |-> Phase(s), a |-> Scale(s)]
\* one assignment
Set(s, what, v) ==
  CASE what = "g" -> [s EXCEPT !.g = v] [] what = "n" -> [s EXCEPT !.n = v]
    [] what = "bw" -> [s EXCEPT !.bw = v] [] what = "tc" -> [s EXCEPT !.tc = v]
    [] what = "phi" -> [s EXCEPT !.phi = v] [] what = "a" -> [s EXCEPT !.a = v]
    [] what = "gd" -> [s EXCEPT !.tc = Num(Raw(s) - v)]
    [] OTHER -> s
\* centre frequencies of a bank in units of 1/(2 (n + 1)) on the scale
Spaced(lo, hi, n) == [k \in 1..n |-> 2 * (n + 1) * lo + (2 * k - 1) * (hi - lo)]
\* two filters per unit of the scale; lo and hi are in units of 1/u
Ceil(a, b) == -((-a) \div b)
Automatic(lo, hi, u) == Ceil(2 * (hi - lo) - u, u)
RECURSIVE Pow(_, _)
Pow(x, p) == IF p = 0 THEN 1 ELSE x * Pow(x, p - 1)
\* response at the i-th sample after the onset when it halves at each sample and
\* the frequency is a quarter of the sampling frequency; units of 2^-last
Cosine(q) == CASE q % 4 = 0 -> 1 [] q % 4 = 2 -> -1 [] OTHER -> 0
Wave(i, n, last, q, part) ==
  IF i < 0 THEN 0
  ELSE Pow(i, n - 1) * Pow(2, last - i) * Cosine(IF part = "re" THEN i + q ELSE i + q - 1)
================================================================================
