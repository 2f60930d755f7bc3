----------------------------- MODULE FramingTrace -----------------------------
(* Observed framings: [kind, k, nw, frames, padl, intact, err].               *)
EXTENDS Framing, Batch
VARIABLES tid, done
T == Traces[tid]
Bad(t) ==
  IF t.err # "" THEN {"raised " \o t.err} ELSE
  (IF t.nw = NFrames(t.k) THEN {}
   ELSE {"announces " \o ToString(t.nw) \o " frames instead of "
           \o ToString(NFrames(t.k))})
  \cup (IF Len(t.frames) = NFrames(t.k) THEN {}
        ELSE {ToString(Len(t.frames)) \o " frames instead of "
                \o ToString(NFrames(t.k))})
  \cup (LET d == {j \in DOMAIN t.frames :
                    j > NFrames(t.k) \/ t.frames[j] # FrameAt(t.k, j)}
        IN IF d = {} THEN {} ELSE {"wrong content of frames " \o ToString(d)})
  \cup (IF t.padl = PadL(t.k) THEN {} ELSE {"padding of " \o ToString(t.padl)})
  \cup (IF t.intact THEN {} ELSE {"the input or its surroundings changed"})
Init == tid \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ LET b == Bad(T)
           IN Verdict(tid, b = {}, 1, T.kind \o ": " \o Join(b))
Spec == Init /\ [][Next]_<<tid, done>>
=============================================================================
