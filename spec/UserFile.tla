------------------------------- MODULE UserFile -------------------------------
(* Saving a file step by step, with failures and crashes at any point: written *)
(* under another name and renamed (InPlace = FALSE), or over the previous      *)
(* content (InPlace = TRUE, defective). Content: 0 absent, <<v, k>> the first  *)
(* k of N pieces of value v.                                                   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Values, N, InPlace, Forget, MaxSaves
Absent == <<0, 0>>
Full(v) == <<v, N>>
VARIABLES file, tmp, pc, old, new, told, count
vars == <<file, tmp, pc, old, new, told, count>>
Init == /\ file = Absent /\ tmp = Absent /\ pc = "idle" /\ old = Absent
        /\ new = 0 /\ told = "" /\ count = 0
Open(v) == /\ pc = "idle" /\ count < MaxSaves /\ count' = count + 1
           /\ pc' = "write" /\ new' = v /\ old' = file /\ told' = ""
           /\ IF InPlace THEN file' = <<v, 0>> /\ UNCHANGED tmp
                         ELSE tmp' = <<v, 0>> /\ UNCHANGED file
Write == /\ pc = "write"
         /\ LET t == IF InPlace THEN file ELSE tmp IN
            IF t[2] = N THEN /\ pc' = "close" /\ UNCHANGED <<file, tmp>>
            ELSE /\ IF InPlace THEN file' = <<new, t[2] + 1>> /\ UNCHANGED tmp
                               ELSE tmp' = <<new, t[2] + 1>> /\ UNCHANGED file
                 /\ UNCHANGED pc
         /\ UNCHANGED <<old, new, told, count>>
Rename == /\ pc = "close" /\ pc' = "idle" /\ told' = "ok"
          /\ IF InPlace THEN UNCHANGED <<file, tmp>>
                        ELSE file' = tmp /\ tmp' = Absent
          /\ UNCHANGED <<old, new, count>>
\* an error is reported (Forget: it is reported as a success instead)
Fail == /\ pc # "idle" /\ pc' = "idle" /\ tmp' = Absent
        /\ told' = (IF Forget THEN "ok" ELSE "error")
        /\ UNCHANGED <<file, old, new, count>>
\* the process dies; what was written stays
Crash == /\ pc # "idle" /\ pc' = "idle" /\ told' = "killed"
         /\ UNCHANGED <<file, tmp, old, new, count>>
Next == (\E v \in Values : Open(v)) \/ Write \/ Rename \/ Fail \/ Crash
Spec == Init /\ [][Next]_vars
AllOrNothing == pc = "idle" => file \in {old, Full(new)} \/ count = 0
Whole == file = Absent \/ \E v \in Values : file = Full(v)
Reported == told = "ok" => file = Full(new)
Failed == told = "error" => file = old
================================================================================
