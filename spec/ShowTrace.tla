------------------------------- MODULE ShowTrace -------------------------------
(* One display of the real code. kind:                                         *)
(* "params": m: model [cls, lines, params: [name, model, of]]; got: tree       *)
(* "names": m: model (no lines); got: tree, names only                     *)
(* "panels": ops: ["show", n] or ["click", i], seen: open panels after each    *)
(* "web": x: channels, rate, label, times; got: played [rate, x], button       *)
(* "label": i (-1: none), k, hask, y (quarters, by channel), hasy, norm, rate, *)
(*   got: [heads, sounds: [rate, x]], kws                                      *)
(* "time": title, unit, digits, lo, hi (bounds), got [value, digits], shown    *)
EXTENDS ShowOps, Batch
VARIABLES tid, done
vars == <<tid, done>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ done = FALSE
Is(got, want, what) == IF got = want THEN {} ELSE
  {what \o " " \o ToString(got) \o " instead of " \o ToString(want)}
\* panels: clicks counted so far, panels shown so far
RECURSIVE Opened(_, _)
Opened(ops, clicks) ==
  IF ops = <<>> THEN <<>> ELSE
  LET o == Head(ops)
      c == IF o[1] = "show" THEN clicks \o [i \in 1..o[2] |-> 0]
           ELSE [clicks EXCEPT ![o[2]] = @ + 1]
  IN <<[i \in DOMAIN c |-> Odd(c[i])]>> \o Opened(Tail(ops), c)
Panels == Is(T.seen, Opened(T.ops, <<>>), "open panels")
Web == Is(T.got, [i \in 1..T.times |-> [rate |-> T.rate, x |-> T.x]], "played")
  \cup Is(T.button, T.label, "button")
\* labels count from one
Head1 == IF T.i < 0 /\ ~T.hask THEN <<>>
         ELSE IF T.i < 0 THEN <<T.k>>
         ELSE IF T.k = "" THEN <<ToString(T.i + 1)>>
         ELSE <<ToString(T.i + 1) \o " - " \o T.k>>
Abs(v) == IF v < 0 THEN -v ELSE v
Trunc(a, b) == IF a < 0 THEN -((-a) \div b) ELSE a \div b
Top == LET s == {Abs(v) : v \in UNION {{T.y[c][j] : j \in DOMAIN T.y[c]} : c \in DOMAIN T.y}}
       IN CHOOSE v \in s : \A u \in s : u <= v
Clip(v) == IF v > 4 THEN 4 ELSE IF v < -4 THEN -4 ELSE v
Pcm(v) == IF T.norm THEN Trunc(v * 32767, Top) ELSE Trunc(Clip(v) * 32767, 4)
Label == Is(T.got.heads, Head1, "label")
  \cup Is(T.got.sounds, IF ~T.hasy THEN <<>> ELSE <<[rate |-> T.rate,
        x |-> [c \in DOMAIN T.y |-> [j \in DOMAIN T.y[c] |-> Pcm(T.y[c][j])]]]>>, "sound")
  \cup (IF T.intact THEN {} ELSE {"changed its input"})
Timing == (IF T.got.value >= T.lo /\ T.got.value <= T.hi THEN {} ELSE {"wrong time"})
  \cup Is(T.got.digits, T.digits, "digits") \cup Is(T.got.text, T.text, "text")
Bad == IF T.err # "" THEN {"raised " \o T.err} ELSE
  CASE T.kind = "params" -> Is(T.got, Tree(T.m), "tree")
    [] T.kind = "names" -> Is(T.got, Tree(T.m), "tree")
    [] T.kind = "panels" -> Panels
    [] T.kind = "web" -> Web
    [] T.kind = "label" -> Label
    [] OTHER -> Timing
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ LET b == Bad IN Verdict(tid, b = {}, 1, Join(b))
Spec == Init /\ [][Next]_vars
================================================================================
