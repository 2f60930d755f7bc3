------------------------------ MODULE MC_Framing ------------------------------
(* Framing as a state machine that slides a window; Framing's closed form is  *)
(* the invariant.                                                             *)
EXTENDS Framing
CONSTANTS MaxN, MaxW, MaxHop
VARIABLES k, pos, out
vars == <<k, pos, out>>
Init == /\ k \in [n : 0..MaxN, w : 1..MaxW, hop : 1..MaxHop,
                  padded : BOOLEAN, rev : BOOLEAN]
        /\ pos = 0 /\ out = <<>>
Slide == /\ pos + k.w <= Total(k)
         /\ out' = Append(out, SubSeq(Analysed(k), pos + 1, pos + k.w))
         /\ pos' = pos + k.hop /\ UNCHANGED k
Next == Slide
Spec == Init /\ [][Next]_vars
Done == pos + k.w > Total(k)
Prefix == out = SubSeq(Frames(k), 1, Len(out))
Complete == Done => Len(out) = NFrames(k)
\* only samples of the signal or zeros, each frame full
InSignal == \A j \in DOMAIN out : /\ Len(out[j]) = k.w
                                  /\ \A q \in 1..k.w : out[j][q] \in 0..k.n
\* less than one hop of the signal is left over, when windows overlap
Covered == Done /\ Total(k) >= k.w =>
  Total(k) - ((Len(out) - 1) * k.hop + k.w) < k.hop
\* padding centres the first frame on the first sample and reaches every sample
PadCentre == k.padded /\ k.n > 0 /\ out # <<>> =>
  LET f == out[1] IN k.w \div 2 >= 1 =>
     f[PadL(k) + 1] = IF k.rev THEN k.n ELSE 1
PadReaches == Done /\ k.padded /\ k.hop = 1 =>
  \A i \in 1..k.n : \E j \in DOMAIN out : \E q \in 1..k.w : out[j][q] = i
===============================================================================
