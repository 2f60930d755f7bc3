----------------------------- MODULE MC_ModeTable -----------------------------
(* Track after track, as workers deliver them in order, then cleaning.         *)
EXTENDS ModeTableOps
CONSTANTS MaxTracks
VARIABLES tracks, i, table
vars == <<tracks, i, table>>
V == {0, 5, 6}
Lin == {<<f, 7, 8>> : f \in V}
Bts == {<< <<f, 2, 3, 4>>, <<f, 3, 2, p>> >> : f \in V, p \in {0, 4}}
T == {[lin |-> l, beats |-> b, dec |-> "script", say |-> s,
       a0 |-> 0, a1 |-> 0, df |-> 0, dfnan |-> FALSE, th |-> 1]
        : l \in Lin, b \in Bts, s \in BOOLEAN}
Init == /\ \E n \in 0..MaxTracks : tracks \in [1..n -> T]
        /\ i = 0 /\ table = <<>>
Next == /\ i < Len(tracks) /\ i' = i + 1 /\ UNCHANGED tracks
        /\ table' = table \o SelectSeq(Cols(tracks[i + 1]), Finite)
Spec == Init /\ [][Next]_vars
\* cleaning each track or everything at the end is the same
Same == i = Len(tracks) => table = Table(tracks)
AllFinite == \A k \in DOMAIN table : Finite(table[k])
\* every finite column of a track is there
Nothing == i = Len(tracks) =>
  \A k \in DOMAIN tracks : \A c \in DOMAIN Cols(tracks[k]) :
    Finite(Cols(tracks[k])[c]) =>
      \E j \in DOMAIN table : table[j] = Cols(tracks[k])[c]
Count == i = Len(tracks) => Len(table) <= 2 * Len(tracks)
===============================================================================
