-------------------------------- MODULE AudioOps -------------------------------
(* Sounds in files and out of them. A file is [kind, full, rate, rows]: rows    *)
(* holds the samples of every channel for each instant, full is what stands for *)
(* one (half the range of integers), kind is "u" (unsigned, silence is full),   *)
(* "s" (signed), "f" (floating point, in units of 1/full) or "bad" (it cannot   *)
(* be read, or is empty). Sounds are in units of 1/(full * channels).           *)
EXTENDS Integers, Sequences
Offset(f, s) == IF f.kind = "u" THEN s - f.full ELSE s
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Mixed(f) == [i \in 1..Len(f.rows) |->
              Sum([j \in 1..Len(f.rows[i]) |-> Offset(f, f.rows[i][j])])]
Channels(f) == Len(f.rows[1])
Unit(f) == f.full * Channels(f)
Region(x, a, b) == SubSeq(x, a + 1, b)
Clip(v, m) == IF v > m THEN m ELSE IF v < 0 - m THEN 0 - m ELSE v
Clipped(x, m) == [i \in 1..Len(x) |-> Clip(x[i], m)]
File(x, full, rate) == [kind |-> "f", full |-> full, rate |-> rate,
                        rows |-> [i \in 1..Len(x) |-> <<x[i]>>]]
================================================================================
