------------------------------- MODULE PlotTrace -------------------------------
(* One plot of the real code. kind:                                            *)
(* "two", "three": tracks, beats, reverse, kept, frames; got: lines (two axes  *)
(*   of them, or lines in space)                                               *)
(* "tf": m (matrix), t, f, x, y (limits, empty: not given), ratio (of 12),     *)
(*   width, own (a new figure); got: [m, extent, xl, yl, aspect (times 12 dy   *)
(*   by ratio), size (times 12)]                                               *)
(* "resynth": sigs: [k, y (integers), e (exponents of ten)], floor (dB, 1:      *)
(*   none), lines [k, x, y], images [k, m, extent], calls [i, k, y], fs, n,    *)
(*   lim (of the frequencies), expected fs: want                               *)
(* "compare": track [t (units of 1/(2 fs)), m (hundreds of dB / 20), f], regs: *)
(*   [k, am, a0, a1 (exponents of ten), fm, n1, n2]; got per model: [k, sig,   *)
(*   amp, db, freq (lines [x, y])]; seen: what each was fitted on; intact      *)
EXTENDS PlotOps, Batch
VARIABLES tid, done
vars == <<tid, done>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ done = FALSE
Is(got, want, what) == IF got = want THEN {} ELSE
  {what \o " " \o ToString(got) \o " instead of " \o ToString(want)}
Two(what) == Lines(T.tracks, what, T.beats, T.reverse, T.kept, T.frames)
Tens(e) == CASE e = -4 -> 1 [] e = -2 -> 100 [] e = -1 -> 1000 [] e = 0 -> 10000
             [] e = 1 -> 100000 [] e = 2 -> 1000000 [] OTHER -> 10000000
Nan == -1
Map(Op(_), s) == [j \in DOMAIN s |-> Op(s[j])]
Amp(e) == Tens(e)
Twice(e) == 2 * Tens(e)
Db(e) == IF e < -3 THEN Nan ELSE 2000 * e
DbTwice(e) == 602 + 2000 * e
Panel(r, what) ==
  LET L(y) == [x |-> T.track.t, y |-> y]
      K(v) == L([j \in DOMAIN T.track.t |-> v])
  IN CASE what = "amp" -> <<L(Map(Twice, T.track.m)), L(Map(Amp, r.am)),
                            L(Map(Amp, r.a0)), L(Map(Amp, r.a1))>>
       [] what = "db" -> <<L(Map(DbTwice, T.track.m)), L(Map(Db, r.am)),
                           L(Map(Db, r.a0)), L(Map(Db, r.a1))>>
       [] OTHER -> <<L(T.track.f), L(r.fm), K(r.n1), K(r.n2)>>
Compare ==
  Is(Len(T.got), Len(T.regs), "panels")
  \cup UNION {IF k > Len(T.got) THEN {} ELSE
    Is(T.got[k].k, T.regs[k].k, "title")
    \cup Is(T.got[k].sig, T.sig, "signal")
    \cup Is(T.got[k].amp, Panel(T.regs[k], "amp"), "amplitudes")
    \cup Is(T.got[k].db, Panel(T.regs[k], "db"), "levels")
    \cup Is(T.got[k].freq, Panel(T.regs[k], "freq"), "frequencies")
    \cup Is(T.seen[k], [t |-> T.track.t, a |-> Map(DbTwice, T.track.m),
                        f |-> T.track.f], "fitted on") : k \in DOMAIN T.regs}
  \cup (IF T.intact THEN {} ELSE {"fits the models it is given"})
Level(e) == IF T.floor > 0 THEN Tens(e) ELSE IF 20 * e < T.floor THEN 100 * T.floor ELSE 2000 * e
Resynth ==
  LET ks == [i \in DOMAIN T.sigs |-> T.sigs[i].k] IN
  Is(T.fs, T.want, "sampling frequency")
  \cup Is(T.lines, [i \in DOMAIN T.sigs |-> [k |-> T.sigs[i].k,
            x |-> [j \in 1..T.n |-> j - 1], y |-> T.sigs[i].y]], "lines")
  \cup Is([i \in DOMAIN T.images |-> T.images[i].k], ks, "titles")
  \cup UNION {IF i > Len(T.images) THEN {} ELSE
     Is(T.images[i].m, Map(Level, T.sigs[i].e), "image")
     \cup Is(T.images[i].extent, <<0, T.n - 1, T.lim[1], T.lim[2]>>, "extent") :
     i \in DOMAIN T.sigs}
  \cup Is(T.calls, IF T.call THEN [i \in DOMAIN T.sigs |-> [i |-> i - 1,
            k |-> T.sigs[i].k, y |-> T.sigs[i].y]] ELSE <<>>, "calls")
Or(a, b) == IF a = <<>> THEN b ELSE a
Tf == LET x == Or(T.x, T.t)
          y == Or(T.y, T.f)
          g == T.got IN
  Is(g.m, T.m, "image") \cup Is(g.extent, T.t \o T.f, "extent")
  \cup Is(g.xl, x, "time limits") \cup Is(g.yl, y, "frequency limits")
  \cup Is(g.aspect, 12 * (x[2] - x[1]), "aspect")
  \cup (IF T.own THEN Is(g.size, <<T.ratio * T.width, 12 * T.width>>, "size") ELSE {})
Bad == IF T.err # "" THEN {"raised " \o T.err} ELSE
  CASE T.kind = "two" -> Is(T.got, <<Two("freq"), Two("mag")>>, "lines")
    [] T.kind = "three" -> Is(T.got, Solid(T.tracks, T.beats, T.reverse, T.kept,
                                           T.frames), "lines")
    [] T.kind = "tf" -> Tf
    [] T.kind = "resynth" -> Resynth
    [] OTHER -> Compare
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ LET b == Bad IN Verdict(tid, b = {}, 1, Join(b))
Spec == Init /\ [][Next]_vars
================================================================================
