------------------------------- MODULE TrimTrace -------------------------------
(* A recorded history of the real audio tab. Events: [act, ok (the file can be *)
(* loaded), size, fa, fb (length of the file and the region it gets in a new   *)
(* tab), on (its onsets), num, lo, hi (the time in samples, rounded both       *)
(* ways), out, err, boxes (error boxes shown), n, a, b (length and region afterwards), sa, sb (the    *)
(* times shown, in samples)].                                                  *)
EXTENDS Batch
Ops == INSTANCE Trim WITH MaxN <- 1, Drift <- FALSE, Stale <- FALSE,
         Old <- FALSE, n <- 0, a <- 0, b <- 0, side <- "", tool <- FALSE,
         near <- {}, last <- ""
VARIABLES tid, i, n, a, b, tools, click, near
vars == <<tid, i, n, a, b, tools, click, near>>
T == Traces[tid]
Init == /\ tid \in 1..Len(Traces) /\ i = 1 /\ n = 0 /\ a = 0 /\ b = 0
        /\ tools = {} /\ click = FALSE /\ near = {}
Valid(s) == 0 <= s.a /\ s.a < s.b /\ s.b <= s.n
\* the boundaries nearer to the position, allowing for rounding
Nearer(s) == UNION {Ops!Near(x, a, b) : x \in (s.lo - 1)..(s.hi + 1)}
MovedA(s) == /\ s.b = b
             /\ s.a \in {Ops!SetA(v, b) : v \in {s.lo, s.hi}}
MovedB(s) == /\ s.a = a
             /\ s.b \in {Ops!SetB(v, a, n) : v \in {s.lo, s.hi}}
Still(s) == s.n = n /\ s.a = a /\ s.b = b
\* the longest stretch between consecutive onsets and the end, the first of those
Stretches(s) == IF s.on = <<>> THEN << <<0, s.size>> >> ELSE
  [k \in DOMAIN s.on |-> <<s.on[k], IF k < Len(s.on) THEN s.on[k + 1] ELSE s.size>>]
Len2(x) == x[2] - x[1]
Longest(s) == LET x == Stretches(s) IN
  x[CHOOSE k \in DOMAIN x : /\ \A j \in DOMAIN x : Len2(x[j]) <= Len2(x[k])
                            /\ \A j \in 1..(k - 1) : Len2(x[j]) < Len2(x[k])]
Loaded(s) == s.act = "load" /\ s.ok
ClickEnds(s) == s.act = "release" /\ n > 0 /\ click /\ tools = {} /\ ~s.out
Obs(s) == ToString(<<s.n, s.a, s.b>>) \o " from " \o ToString(<<n, a, b>>)
Bad(s) ==
  IF s.err # "" THEN {"raised " \o s.err} ELSE
  (IF s.n > 0 /\ ~Valid(s) THEN {"invalid region " \o Obs(s)} ELSE {})
  \cup
  (CASE Loaded(s) ->
          (IF s.n = s.size /\ s.a = s.fa /\ s.b = s.fb /\ <<s.a, s.b>> = Longest(s)
           THEN {} ELSE {"loaded as " \o Obs(s)})
          \cup (IF s.boxes # 0 THEN {"error shown"} ELSE {})
     [] s.act = "load" /\ ~s.ok ->
          (IF Still(s) THEN {} ELSE {"failed load changes " \o Obs(s)})
          \cup (IF s.size < 0 /\ s.boxes = 0 THEN {"no error shown"} ELSE {})
     [] s.act \in {"typea", "typeb"} /\ n > 0 ->
          IF s.num
          THEN (IF s.n = n /\ (IF s.act = "typea" THEN MovedA(s) ELSE MovedB(s))
                THEN {} ELSE {"typed " \o s.act \o " " \o ToString(s.lo)
                              \o " gives " \o Obs(s)})
          ELSE (IF s.n = n /\ (IF s.act = "typea" THEN s.b = b ELSE s.a = a)
                THEN {} ELSE {"garbage moves " \o Obs(s)})
     [] ClickEnds(s) ->
          (IF s.n = n /\ (("a" \in near /\ MovedA(s)) \/ ("b" \in near /\ MovedB(s)))
           THEN {} ELSE {"click at " \o ToString(s.lo) \o " gives " \o Obs(s)})
     [] OTHER -> IF Still(s) THEN {} ELSE {s.act \o " moves " \o Obs(s)})
  \cup (IF (Loaded(s) \/ ClickEnds(s)) /\ (s.sa # s.a \/ s.sb # s.b)
        THEN {"shows " \o ToString(<<s.sa, s.sb>>) \o " for "
              \o ToString(<<s.a, s.b>>)} ELSE {})
Next ==
  /\ i <= Len(T.steps)
  /\ LET s == T.steps[i]
         bb == Bad(s) IN
     /\ n' = s.n /\ a' = s.a /\ b' = s.b
     /\ tools' = (IF s.act = "tool" THEN (IF s.lo \in tools THEN tools \ {s.lo}
                                         ELSE tools \cup {s.lo}) ELSE tools)
     /\ IF s.act = "press" /\ tools # {} THEN click' = FALSE /\ near' = {}
        ELSE IF s.act = "press" /\ n > 0 /\ ~click /\ ~s.out
        THEN click' = TRUE /\ near' = Nearer(s)
        ELSE IF s.act = "release" THEN click' = FALSE /\ near' = {}
        ELSE UNCHANGED <<click, near>>
     /\ i' = IF bb = {} THEN i + 1 ELSE Len(T.steps) + 2
     /\ (bb # {}) => Verdict(tid, FALSE, i, Join(bb))
     /\ (bb = {} /\ i = Len(T.steps)) => Verdict(tid, TRUE, i, "")
  /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
================================================================================
