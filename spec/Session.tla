-------------------------------- MODULE Session --------------------------------
(* The launcher, the processes it starts one after another and the files they  *)
(* share. A session is a number (audio with its trim region; 0: none).         *)
(* AnyEnd (defective): every end without a message starts the interface again. *)
(* Keep (defective): the cache is not consumed. Early (defective): what is     *)
(* cached is what was loaded, not the state of the moment of the reload.       *)
EXTENDS Integers, Sequences
CONSTANTS Sessions, Starts, AnyEnd, Keep, Early
VARIABLES launcher,  \* "off", "wait" (a process runs), "check"
          proc,      \* "none", "splash", "up"
          session, loaded, cache, queue,
          restore, wanted, starts
vars == <<launcher, proc, session, loaded, cache, queue, restore, wanted,
          starts>>
\* ghosts: wanted (a reload was accepted by the last process), restore (the
\* session of that moment)
Init == /\ launcher = "off" /\ proc = "none" /\ session = 0 /\ loaded = 0
        /\ cache = 0 /\ queue = <<>> /\ restore = 0 /\ wanted = FALSE
        /\ starts = 0
User == /\ launcher = "off" /\ starts < Starts /\ starts' = starts + 1
        /\ launcher' = "wait" /\ proc' = "splash" /\ queue' = <<>>
        /\ wanted' = FALSE /\ restore' = 0
        /\ UNCHANGED <<session, loaded, cache>>
Up == /\ proc = "splash" /\ proc' = "up" /\ session' = cache /\ loaded' = cache
      /\ cache' = (IF Keep THEN cache ELSE 0)
      /\ UNCHANGED <<launcher, queue, restore, wanted, starts>>
Load(s) == /\ proc = "up" /\ session' = s /\ loaded' = s
           /\ UNCHANGED <<launcher, proc, cache, queue, restore, wanted, starts>>
Trim(s) == /\ proc = "up" /\ session # 0 /\ session' = s
           /\ UNCHANGED <<launcher, proc, loaded, cache, queue, restore, wanted,
                          starts>>
End(q) == /\ proc' = "none" /\ launcher' = "check" /\ queue' = q
Reload == /\ proc = "up" /\ cache' = (IF Early THEN loaded ELSE session)
          /\ wanted' = TRUE
          /\ restore' = session /\ End(<<TRUE>>)
          /\ UNCHANGED <<session, loaded, starts>>
Close == /\ proc = "up" /\ wanted' = FALSE /\ restore' = 0 /\ End(<<FALSE>>)
         /\ UNCHANGED <<session, loaded, cache, starts>>
Crash == /\ proc # "none" /\ wanted' = FALSE /\ restore' = 0 /\ End(<<>>)
         /\ UNCHANGED <<session, loaded, cache, starts>>
\* a crash before the cache is consumed leaves it to the next start
Again == IF queue = <<>> THEN AnyEnd ELSE queue[1]
Check == /\ launcher = "check" /\ starts < Starts
         /\ IF Again THEN /\ launcher' = "wait" /\ proc' = "splash"
                          /\ starts' = starts + 1
            ELSE launcher' = "off" /\ UNCHANGED <<proc, starts>>
         /\ queue' = <<>>
         /\ UNCHANGED <<session, loaded, cache, restore, wanted>>
Next == User \/ Up \/ Reload \/ Close \/ Check
        \/ (Crash /\ (proc = "up" \/ cache = 0))
        \/ \E s \in Sessions : Load(s) \/ Trim(s)
Spec == Init /\ [][Next]_vars
Restores == [][Up => session' = restore]_vars
OnlyIfWanted == [][Check => (proc' = "splash") = wanted]_vars
Consumed == proc = "up" => cache = 0
================================================================================
