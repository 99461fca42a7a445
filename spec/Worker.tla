------------------------------- MODULE Worker -------------------------------
(* Design model of the browser worker: the run loop sleeps on a timer after  *)
(* every turn, commands arrive in between, initialisation waits twice.  The  *)
(* model produces the observations the real worker is recorded with, and the *)
(* monitor of WorkerDefs judges both.                                        *)
(*   GUARD: a loop checks on waking that it is still the current one;        *)
(*   RGUARD: an initialisation overtaken by a reset is dropped;              *)
(*   IGUARD: making a new search stops a loop started meanwhile.             *)
(* All off is the original code, and TLC then finds the three defects.       *)
EXTENDS WorkerDefs, TLC
CONSTANTS Total, Chunk, StepBy, MaxLen, Throws, GUARD, RGUARD, IGUARD, EMIT, WARM, Cmds
VARIABLES search,   \* 0 or the number of the current search
          cyc, running, loop, sleeping, \* sleeping: sequence of <<timer, loop id>>
          waits,    \* pending initialisation stages: <<init number, stage, resets seen>>
          resets, nInit, nTimer, nGen, nStep,
          mon, good, word
vars == <<search, cyc, running, loop, sleeping, waits, resets, nInit, nTimer, nGen, nStep, mon, good, word>>

P(t, a, b, g, c) == [k |-> "post", t |-> t, a |-> a, b |-> b, g |-> g, c |-> c, note |-> "7:val"]
Adv(g, d, c) == [k |-> "adv", a |-> g, b |-> d, c |-> c]
Throw(g) == [k |-> "throw", a |-> g, b |-> 0, c |-> 0]
Min(a, b) == IF a < b THEN a ELSE b

Init ==
  /\ search = 0 /\ cyc = 0 /\ running = FALSE /\ loop = 0 /\ sleeping = <<>> /\ waits = <<>> /\ resets = 0
  /\ nInit = 0 /\ nTimer = 0 /\ nGen = 0 /\ nStep = 0 /\ mon = Mon0 /\ good = TRUE /\ word = <<>>

Observe(a, t, ch, ev) ==
  LET s == [a |-> a, t |-> t, miss |-> FALSE, ev |-> ev]
  IN /\ good' = (good /\ StepOK(mon, s, Total, 0))
     /\ mon' = After(mon, s)
     /\ word' = IF EMIT THEN Append(word, ch) ELSE word

(* one turn of the loop `id` for the current search; ev0 are earlier observations of the same task *)
Turn_(id, a, t, ch) ==
  IF cyc >= Total
  THEN /\ running' = FALSE
       /\ Observe(a, t, ch, <<P("snapshot", search, cyc, search, cyc), P("front", search, cyc, search, cyc), P("done", 0, 0, search, cyc)>>)
       /\ UNCHANGED <<cyc, nTimer, nStep>> /\ sleeping' = (IF a = "fire" THEN Tail(sleeping) ELSE sleeping)
  ELSE
  LET c == Min(Total, cyc + Chunk) IN
  \/ /\ Throws /\ running' = FALSE /\ nStep' = nStep + 1
     /\ Observe(a, t, ch, <<Throw(search), P("error", 0, 0, search, cyc)>>)
     /\ UNCHANGED <<cyc, nTimer>> /\ sleeping' = (IF a = "fire" THEN Tail(sleeping) ELSE sleeping)
  \/ /\ running' = TRUE /\ cyc' = c /\ nStep' = nStep + 1 /\ nTimer' = nTimer + 1
     /\ sleeping' = Append(IF a = "fire" THEN Tail(sleeping) ELSE sleeping, <<nTimer + 1, id>>)
     /\ \E rep \in (IF EMIT THEN {TRUE} ELSE BOOLEAN) :      \* the snapshot and the front are throttled by the clock
          Observe(a, t, ch, <<Adv(search, c - cyc, c)>>
             \o (IF rep THEN <<P("snapshot", search, c, search, c), P("front", search, c, search, c)>> ELSE <<>>)
             \o <<[k |-> "timer", a |-> nTimer + 1, b |-> 0, c |-> 0]>>)

Start == /\ "S" \in Cmds
         /\ IF search = 0
            THEN Observe("start", 0, "S", <<P("error", 0, 0, 0, 0)>>) /\ UNCHANGED <<cyc, running, loop, sleeping, nTimer, nStep>>
            ELSE IF running
            THEN Observe("start", 0, "S", <<>>) /\ UNCHANGED <<cyc, running, loop, sleeping, nTimer, nStep>>
            ELSE loop' = loop + 1 /\ Turn_(loop + 1, "start", 0, "S")
         /\ UNCHANGED <<search, waits, resets, nInit, nGen>>
Fire == /\ sleeping # <<>>
        /\ LET t == sleeping[1][1] id == sleeping[1][2] IN
           IF running /\ (~GUARD \/ id = loop)
           THEN Turn_(id, "fire", t, "F")
           ELSE /\ Observe("fire", t, "F", <<>>)
                /\ sleeping' = Tail(sleeping) /\ UNCHANGED <<cyc, running, nTimer, nStep>>
        /\ UNCHANGED <<search, loop, waits, resets, nInit, nGen>>
Pause == /\ "P" \in Cmds /\ running' = FALSE /\ Observe("pause", 0, "P", <<P("paused", 0, 0, search, cyc)>>)
         /\ UNCHANGED <<search, cyc, loop, sleeping, waits, resets, nInit, nTimer, nGen, nStep>>
Reset == /\ "X" \in Cmds /\ running' = FALSE /\ search' = 0 /\ cyc' = 0 /\ resets' = resets + 1
         /\ Observe("reset", 0, "X", <<P("reset_done", 0, 0, 0, 0)>>)
         /\ UNCHANGED <<loop, sleeping, waits, nInit, nTimer, nGen, nStep>>
InitCmd == /\ "I" \in Cmds /\ running' = FALSE /\ nInit' = nInit + 1 /\ nInit < 3
           /\ waits' = Append(waits, <<nInit + 1, 1, resets>>)
           /\ Observe("init", nInit + 1, "I", <<[k |-> "wait", a |-> nInit + 1, b |-> 1, c |-> 0]>>)
           /\ UNCHANGED <<search, cyc, loop, sleeping, resets, nTimer, nGen, nStep>>
Resolve ==
  /\ waits # <<>>
  /\ LET no == waits[1][1] stage == waits[1][2] seen == waits[1][3] IN
     IF RGUARD /\ seen # resets
     THEN /\ Observe("resolve", no, "R", <<>>) /\ waits' = Tail(waits) /\ UNCHANGED <<search, cyc, running, nGen>>
     ELSE IF stage = 1
     THEN /\ Observe("resolve", no, "R", <<[k |-> "wait", a |-> no, b |-> 2, c |-> 0]>>)
          /\ waits' = Append(Tail(waits), <<no, 2, seen>>) /\ UNCHANGED <<search, cyc, running, nGen>>
     ELSE /\ Observe("resolve", no, "R", <<[k |-> "new", a |-> nGen + 1, b |-> no, c |-> 1], P("ready", nGen + 1, 0, nGen + 1, 0)>>)
          /\ waits' = Tail(waits) /\ search' = nGen + 1 /\ cyc' = 0 /\ nGen' = nGen + 1
          /\ running' = (running /\ ~IGUARD)
  /\ UNCHANGED <<loop, sleeping, resets, nInit, nTimer, nStep>>
StepCmd ==
  /\ "T" \in Cmds
  /\ IF search = 0 THEN Observe("step", StepBy, "T", <<P("error", 0, 0, 0, 0)>>) /\ UNCHANGED <<cyc, nStep>>
     ELSE LET c == Min(Total, cyc + StepBy) IN
          /\ cyc' = c /\ nStep' = nStep + 1
          /\ Observe("step", StepBy, "T", <<Adv(search, c - cyc, c), P("snapshot", search, c, search, c), P("front", search, c, search, c)>>)
  /\ UNCHANGED <<search, running, loop, sleeping, waits, resets, nInit, nTimer, nGen>>
Eval ==
  /\ "E" \in Cmds
  /\ Observe("eval", 7, "E", <<IF search = 0 THEN P("error", 0, 0, 0, 0) ELSE P("eval", search, 7, search, cyc)>>)
  /\ UNCHANGED <<search, cyc, running, loop, sleeping, waits, resets, nInit, nTimer, nGen, nStep>>

(* schedules may begin with a search that has just been started *)
Warm == <<"I", "R", "R", "S">>
Next == /\ Len(word) < MaxLen
        /\ (Start \/ Fire \/ Pause \/ Reset \/ InitCmd \/ Resolve \/ StepCmd \/ Eval)
        /\ (EMIT /\ WARM /\ Len(word) < 4) => word'[Len(word')] = Warm[Len(word')]
Spec == Init /\ [][Next]_vars /\ WF_vars(Fire)

(* ---- checked on the model ---- *)
Judged == good
OneLoop == Cardinality({j \in 1..Len(sleeping) : running /\ search # 0 /\ sleeping[j][2] = loop}) <= 1
MonitorAgrees == mon.gen = search /\ mon.cyc = cyc /\ (mon.started <=> running)
(* a started search stops: completed, failed, or told to *)
Terminates == (running /\ search # 0) ~> ~running
Bounded == nTimer <= 5 /\ resets <= 2 /\ loop <= 4 /\ nStep <= 6 /\ nGen <= 2
Emit == (EMIT /\ Len(word) = MaxLen) => PrintT(<<"WORD", word>>)
=============================================================================
