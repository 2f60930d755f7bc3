------------------------------- MODULE Batch -------------------------------
(* Batched trace validation with total verdicts: every trace in the file     *)
(* ends in one or more printed verdicts {"tid","ok","at","why"}.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
File == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == File.traces
Verdict(t, ok, at, why) ==
  PrintT(ToJson([tid |-> t, ok |-> ok, at |-> at, why |-> why]))
\* one verdict out of a set of violated clauses (strings)
RECURSIVE Join(_)
Join(S) == IF S = {} THEN ""
           ELSE LET x == CHOOSE y \in S : TRUE
                IN IF Cardinality(S) = 1 THEN x ELSE x \o "; " \o Join(S \ {x})
=============================================================================
