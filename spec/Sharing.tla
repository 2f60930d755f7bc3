------------------------------- MODULE Sharing -------------------------------
(* The object graph of models: which parts a model owns, which object each    *)
(* part is, its parameter and what it has learned.                            *)
(*                                                                            *)
(* Classes: "SAMPLE", "Beats" (with beat decoupling), "Modal", "Sines"        *)
(* (sinusoidal models), "MTracker", "STracker", "Storage", "Window", "Hinge", *)
(* "Linear", "BeatReg", "Decisor".  A heap maps 1..n to                       *)
(* [cls, leaf, slots, learned]; leaf is one representative parameter.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* slots of a class, in order, with the class of their default
Slots(c) ==
  CASE c = "SAMPLE" -> <<<<"sinusoidal", "Modal">>, <<"regressor", "Hinge">>>>
    [] c = "Beats" -> <<<<"sinusoidal", "Modal">>, <<"regressor", "Hinge">>,
                        <<"beatsdrop", "BeatReg">>, <<"beat_decisor", "Decisor">>>>
    [] c = "Modal" -> <<<<"tracker", "MTracker">>, <<"intermediate", "Storage">>,
                        <<"w", "Window">>>>
    [] c = "Sines" -> <<<<"tracker", "STracker">>, <<"intermediate", "Storage">>,
                        <<"w", "Window">>>>
    [] c = "Hinge" -> <<<<"linear_regressor", "Linear">>>>
    [] c = "Decisor" -> <<<<"intermediate", "Storage">>>>
    [] OTHER -> <<>>
SlotNames(c) == [i \in DOMAIN Slots(c) |-> Slots(c)[i][1]]
SlotDefault(c, s) == LET i == CHOOSE i \in DOMAIN Slots(c) : Slots(c)[i][1] = s
                     IN Slots(c)[i][2]
Leaf0(c) == CASE c \in {"MTracker", "STracker"} -> 100
              [] c \in {"Modal", "Sines"} -> -90
              [] c = "BeatReg" -> 50
              [] c = "Linear" -> 1
              [] c = "Decisor" -> -1
              [] OTHER -> 0
\* which classes may stand in for which
Kind(c) == CASE c \in {"Modal", "Sines"} -> "sinusoidal"
             [] c \in {"MTracker", "STracker"} -> "tracker"
             [] OTHER -> c

NoSlots == [x \in {} |-> 0]

\* Allocating an object with defaults except for the given parts; given maps
\* slot names to objects.  Result: <<heap, id>>
RECURSIVE New(_, _, _), Fill(_, _, _, _)
New(h, c, given) ==
  LET id == Len(h) + 1
      h1 == Append(h, [cls |-> c, leaf |-> Leaf0(c), slots |-> NoSlots,
                       learned |-> 0])
  IN <<Fill(h1, id, Slots(c), given), id>>
Fill(h, id, todo, given) ==
  IF todo = <<>> THEN h
  ELSE LET s == todo[1][1]
           r == IF s \in DOMAIN given THEN <<h, given[s]>>
                ELSE New(h, todo[1][2], NoSlots)
           h2 == [r[1] EXCEPT ![id].slots = @ @@ (s :> r[2])]
       IN Fill(h2, id, Tail(todo), given)

\* Copy of an object with its parameters, not what it learned
RECURSIVE Clone(_, _), FillClone(_, _, _, _)
Clone(h, o) ==
  LET id == Len(h) + 1
      h1 == Append(h, [h[o] EXCEPT !.slots = NoSlots, !.learned = 0])
  IN <<FillClone(h1, id, o, SlotNames(h[o].cls)), id>>
FillClone(h, id, o, todo) ==
  IF todo = <<>> THEN h
  ELSE LET r == Clone(h, h[o].slots[todo[1]])
           h2 == [r[1] EXCEPT ![id].slots = @ @@ (todo[1] :> r[2])]
       IN FillClone(h2, id, o, Tail(todo))

RECURSIVE At(_, _, _)
At(h, o, path) == IF path = <<>> THEN o
                  ELSE At(h, h[o].slots[Head(path)], Tail(path))

SetLeaf(h, o, v) == [h EXCEPT ![o].leaf = v]
\* assign another object, or a fresh default
SetSlot(h, o, s, target) ==
  IF target # 0 THEN [h EXCEPT ![o].slots[s] = target]
  ELSE LET r == New(h, SlotDefault(h[o].cls, s), NoSlots)
       IN [r[1] EXCEPT ![o].slots[s] = r[2]]

Store(h, o, x) == [h EXCEPT ![o].learned = IF h[o].leaf = 1 THEN x ELSE 0]
FitSines(h, o, x) ==
  LET h1 == [h EXCEPT ![h[o].slots["tracker"]].learned = x]
  IN Store(h1, h[o].slots["intermediate"], x)
Fit(h, o, x) ==
  IF h[o].cls \in {"Modal", "Sines"} THEN FitSines(h, o, x)
  ELSE LET h1 == FitSines(h, h[o].slots["sinusoidal"], x)
           h2 == [h1 EXCEPT ![o].learned = x]
       IN IF h[o].cls = "Beats"
          THEN LET d == h2[h2[o].slots["beat_decisor"]].slots["intermediate"]
               IN Store(h2, d, x)
          ELSE h2

\* Objects reachable from o, in a fixed order (with repetitions)
RECURSIVE Walk(_, _), WalkSlots(_, _, _)
Walk(h, o) == <<o>> \o WalkSlots(h, o, SlotNames(h[o].cls))
WalkSlots(h, o, ss) == IF ss = <<>> THEN <<>>
                       ELSE Walk(h, h[o].slots[Head(ss)])
                            \o WalkSlots(h, o, Tail(ss))
Reach(h, o) == {Walk(h, o)[i] : i \in DOMAIN Walk(h, o)}
==============================================================================
