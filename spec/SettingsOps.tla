------------------------------ MODULE SettingsOps ------------------------------
(* The settings of the GUI: what a text in an entry (or a value in the saved   *)
(* file) may become, and what the settled settings are together.               *)
(* Numbers are in units of 1/SC; a text is [c, v]: c = "num" (v the number,    *)
(* PINF, NINF and HUGE stand for infinities and for what is beyond any size)   *)
(* or c = "bad" (everything else, not-a-number included).                      *)
EXTENDS Integers, Sequences, FiniteSets
SC == 10000
PINF == 2000000000
NINF == -2000000000
HUGE == 1900000000
NONE == -1900000001
NAN == -1900000002
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Pow2(_, _)
Pow2(p, x) == IF p >= x THEN p ELSE Pow2(2 * p, x)
NextPow2(x) == Pow2(1, x)
IsPow2(x) == x >= 1 /\ NextPow2(x) = x
Exact(t) == t.c = "num" /\ t.v # PINF /\ t.v # NINF /\ t.v # HUGE
Whole(t) == SC * Max(1, t.v \div SC)
IsPos(v) == v = HUGE \/ (v >= SC /\ (v % SC) = 0)
\* the value v may result from the text t in an entry of the given kind
Ok(k, t, v) ==
  CASE k.kind = "posint" ->
         IF Exact(t) THEN v = Whole(t)
         ELSE IsPos(v) \/ (k.none /\ v = NONE)
    [] k.kind = "pow2" ->
         IF Exact(t) THEN v = SC * NextPow2(Whole(t) \div SC)
         ELSE v = HUGE \/ (IsPos(v) /\ IsPow2(v \div SC))
    [] k.kind = "float" ->
         IF t.c = "num" THEN v = t.v ELSE v # NAN /\ v # NONE
    [] k.kind = "clip" ->
         IF t.c = "num" THEN v = Min(k.hi, Max(k.lo, t.v))
         ELSE v >= k.lo /\ v <= k.hi
    [] k.kind = "strip" ->
         IF t.c = "num" /\ t.v > 0 THEN v = t.v ELSE v = NONE
    [] k.kind = "bool" -> v = (IF t.c = "false" \/ (t.c = "num" /\ t.v = 0)
                               THEN 0 ELSE SC)
    [] OTHER -> TRUE          \* wsize, smfb_0, smfb_1: see the pairs below
\* the window fits the transform: unchanged if it does already
WindowOk(tw, n, w) ==
  IF Exact(tw) /\ n # HUGE THEN w = Min(Whole(tw), n)
  ELSE IF Exact(tw) THEN w = Whole(tw)
  ELSE w >= SC /\ (w % SC) = 0 /\ w # HUGE /\ w <= n
\* the bounds are ordered: exchanged if given the other way round
BoundsOk(t0, t1, f0, f1) ==
  /\ f0 < f1 /\ f0 # NAN /\ f1 # NAN /\ f0 # NONE /\ f1 # NONE
  /\ (t0.c = "num" /\ t1.c = "num" /\ t0.v # t1.v)
     => f0 = Min(t0.v, t1.v) /\ f1 = Max(t0.v, t1.v)
WTypeOk(t, known, v) == v \in known /\ (t \in known => v = t)
Jobs(par, nj) == IF par = 0 THEN 0 ELSE nj
================================================================================
