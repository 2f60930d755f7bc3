----------------------------- MODULE TimeAxisTrace -----------------------------
(* Observed fits: [k, tracks, fits, beats, modes, err]; fits: what each         *)
(* regression received ([t, y]), beats: what each beat regression received      *)
(* ([t, y, f]), modes: the resulting parameters.                                *)
EXTENDS TimeAxis, Batch
VARIABLES tid, done
T == Traces[tid]
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Count(a, a[i]) = Count(b, a[i])
Bad(t) ==
  IF t.err # "" THEN {"raised " \o t.err} ELSE
  LET want == [i \in DOMAIN t.tracks |-> [t |-> Times(t.k, t.tracks[i]),
                                         y |-> Levels(t.tracks[i])]]
      wantb == [i \in DOMAIN t.tracks |-> [t |-> Times(t.k, t.tracks[i]),
                                          y |-> Levels(t.tracks[i]),
                                          f |-> Freqs(t.tracks[i]), fs |-> t.fs]]
      modes == Modes(t.k, t.tracks)
  IN (IF SameBag(t.fits, want) THEN {}
      ELSE {"regressions received " \o ToString(t.fits) \o " instead of "
              \o ToString(want)})
  \cup (IF ~t.isbeats \/ SameBag(t.beats, wantb) THEN {}
      ELSE {"beat regressions received " \o ToString(t.beats)
              \o " instead of " \o ToString(wantb)})
  \cup (IF t.modes = modes THEN {}
      ELSE {"modes " \o ToString(t.modes) \o " instead of " \o ToString(modes)})
Init == tid \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ LET b == Bad(T) IN Verdict(tid, b = {}, 1, T.kind \o ": " \o Join(b))
Spec == Init /\ [][Next]_<<tid, done>>
=============================================================================
