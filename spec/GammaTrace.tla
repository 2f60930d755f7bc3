------------------------------ MODULE GammaTrace ------------------------------
(* One history of a filter of the real code, or one call. kind:                *)
(* "filter": init (settings), steps: [what, v, obs (what is read afterwards)]  *)
(* "bank": [lo, hi, n (0: automatic), u, at (centres in units of the model)]   *)
(* "members": [given, got]: attributes of filters through their bank           *)
(* "size": [level, floor (hundredths of dB), after (the time is after the      *)
(*   peak), x (quarters of a turn at that time, thousandths), p (quarters at   *)
(*   time zero), f, fs, m (lead in samples), size]                             *)
(* "response": [n, q, m, last, from, part, a, got]                             *)
(* "energy": [a, got] (thousandths)                                            *)
EXTENDS GammaOps, Batch
VARIABLES tid, done
vars == <<tid, done>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ done = FALSE
Near(x, y) == x - y \in -4..4
Fields == {"f", "n", "bw", "raw", "tc", "gd", "phi", "a"}
Diff(r, o) == {w \in Fields : ~Near(r[w], o[w])}
RECURSIVE Run(_, _)
Run(s, j) ==
  IF j > Len(T.steps) THEN {} ELSE
  LET t == T.steps[j]
      s2 == Set(s, t.what, t.v)
      d == Diff(Read(s2), t.obs)
  IN IF d = {} THEN Run(s2, j + 1)
     ELSE {"step " \o ToString(j) \o " (" \o t.what \o "): "
           \o ToString([w \in d |-> t.obs[w]]) \o " instead of "
           \o ToString([w \in d |-> Read(s2)[w]])}
BadBank == LET n == IF T.n = 0 THEN Automatic(T.lo, T.hi, T.u) ELSE T.n IN
  IF Len(T.at) # n THEN {ToString(Len(T.at)) \o " filters instead of " \o ToString(n)}
  ELSE IF T.at = Spaced(T.lo, T.hi, n) THEN {} ELSE {"centres " \o ToString(T.at)}
BadSize ==
  LET q == Ceil(T.x, 1000)
      n == ((q - T.p) * T.fs) \div (4 * T.f) + T.m IN
  (IF T.level - T.floor \in -1..1 THEN {} ELSE {"level " \o ToString(T.level)})
  \cup (IF T.after THEN {} ELSE {"time before the peak"})
  \cup (IF T.size = n \/ (T.size = n - 1 /\ ((q - T.p) * T.fs) % (4 * T.f) = 0)
         THEN {} ELSE  \* rounding decides when it ends exactly on a sample
        {"size " \o ToString(T.size) \o " instead of " \o ToString(n)})
BadResponse == LET want == [j \in DOMAIN T.got |->
    T.a * Wave(j - 1 + T.from, T.n, T.last, T.q - T.m, T.part)] IN
  IF T.got = want THEN {} ELSE
    {"response " \o ToString(T.got) \o " instead of " \o ToString(want)}
Bad == IF T.err # "" THEN {"raised " \o T.err} ELSE
  CASE T.kind = "filter" -> (LET d == Diff(Read(T.init), T.obs) IN
         IF d = {} THEN Run(T.init, 1)
         ELSE {"new filter has " \o ToString([w \in d |-> T.obs[w]])})
    [] T.kind = "bank" -> BadBank
    [] T.kind = "members" -> (IF T.given = T.got THEN {} ELSE {ToString(T.got)})
    [] T.kind = "size" -> BadSize
    [] T.kind = "response" -> BadResponse
    [] OTHER -> IF T.got = T.a * T.a THEN {} ELSE {"energy " \o ToString(T.got)}
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ LET b == Bad IN Verdict(tid, b = {}, 1, Join(b))
Spec == Init /\ [][Next]_vars
================================================================================
