---------------------------- MODULE WorkerDefs ----------------------------
(* The browser worker (web/ui/src/worker) as seen from outside: the commands *)
(* it handles, the timers it sets, the calls it makes on the engine and the  *)
(* messages it posts.  One step is one macro-task: a command, a timer that   *)
(* fires, or one stage of an initialisation that resolves.  A step record is *)
(*   [a |-> action, t |-> argument, miss |-> BOOLEAN, ev |-> observations]   *)
(* with observations [k |-> kind, ...]:                                      *)
(*   adv  a=search b=cycles run c=cycles so far   throw  a=search            *)
(*   timer a=id      wait a=init number           new  a=search b=init c=1   *)
(*   post t=type a,b=content g,c=current search and its cycles               *)
(* The monitor is deterministic: After(m, step) and OK(m, step).             *)
EXTENDS Integers, Sequences, FiniteSets

Mon0 == [gen |-> 0, cyc |-> 0, started |-> FALSE, live |-> {}, old |-> {}, stale |-> 0, last |-> 0,
         snap |-> <<0, 0>>, front |-> <<0, 0>>]
(* old: initialisations overtaken by a reset are those with a number up to `stale`; last: latest init command *)

Sel(ev, P(_)) == SelectSeq(ev, P)
Posts(ev)   == Sel(ev, LAMBDA e : e.k = "post")
Advs(ev)    == Sel(ev, LAMBDA e : e.k = "adv" /\ e.b > 0)
Has(ev, kind) == \E j \in 1..Len(ev) : ev[j].k = kind
Posted(ev, type) == \E j \in 1..Len(ev) : ev[j].k = "post" /\ ev[j].t = type
Types(ev) == LET p == Posts(ev) IN [j \in 1..Len(p) |-> p[j].t]
Timers(ev) == {ev[j].a : j \in {q \in 1..Len(ev) : ev[q].k = "timer"}}
RECURSIVE LastOf(_, _, _)
LastOf(ev, type, d) == IF ev = <<>> THEN d
                       ELSE IF ev[Len(ev)].k = "post" /\ ev[Len(ev)].t = type THEN <<ev[Len(ev)].a, ev[Len(ev)].b>>
                       ELSE LastOf(SubSeq(ev, 1, Len(ev) - 1), type, d)
NewCyc(ev, d) == LET A == Sel(ev, LAMBDA e : e.k \in {"adv", "new"})
                 IN IF A = <<>> THEN d ELSE IF A[Len(A)].k = "new" THEN 0 ELSE A[Len(A)].c

(* ---- what a reported snapshot or front says is the state of the current search ---- *)
Truthful(ev) == \A j \in 1..Len(ev) : (ev[j].k = "post" /\ ev[j].t \in {"snapshot", "front"}) => ev[j].a = ev[j].g /\ ev[j].b = ev[j].c
OfSearch(ev, g) == \A j \in 1..Len(ev) : ev[j].k \in {"adv", "throw"} => ev[j].a = g
Quiet(ev) == Len(Posts(ev)) = 0 /\ Len(Advs(ev)) = 0

(* ---- one turn of the run loop ---- *)
TurnStart(m, s) == s.a = "start" /\ m.gen > 0 /\ ~m.started
Turn(m, s) == TurnStart(m, s) \/ (s.a = "fire" /\ m.started /\ s.t \in m.live)
               \/ (s.a = "start" /\ m.gen > 0 /\ m.started /\ ~Quiet(s.ev))   \* restarting the loop is allowed
Snap(m, s) == LastOf(s.ev, "snapshot", IF TurnStart(m, s) THEN <<0, 0>> ELSE m.snap)
Frnt(m, s) == LastOf(s.ev, "front", IF TurnStart(m, s) THEN <<0, 0>> ELSE m.front)
TurnOK(m, s, total) ==
  LET ev == s.ev
      ty == Types(ev)
      n == Len(ty)
      cyc == NewCyc(ev, m.cyc)
      dones == {j \in 1..n : ty[j] = "done"}
  IN /\ OfSearch(ev, m.gen)
     /\ IF Has(ev, "throw")
        THEN n > 0 /\ ty[n] = "error" /\ \A j \in 1..(n - 1) : ty[j] \in {"snapshot", "front"}
        ELSE IF dones # {}
        THEN /\ dones = {n} /\ cyc = total
             /\ \A j \in 1..(n - 1) : ty[j] \in {"snapshot", "front"}
             /\ Snap(m, s) = <<m.gen, total>> /\ Frnt(m, s) = <<m.gen, total>>   \* the final ones were reported
        ELSE /\ \A j \in 1..n : ty[j] \in {"snapshot", "front"}
             /\ Timers(ev) # {}                                                  \* it goes on

Stopped(m, s) == \/ s.a \in {"pause", "reset", "init"}
                 \/ Turn(m, s) /\ (Posted(s.ev, "done") \/ Has(s.ev, "throw"))

InitDone(s) == ~Has(s.ev, "wait")
StepOK(m, s, total, failInit) ==
  LET ev == s.ev ty == Types(ev) IN
  /\ Truthful(ev)
  /\ ~Has(ev, "new") \/ s.a \in {"init", "resolve"}
  /\ CASE s.a = "load"  -> Quiet(ev)
       [] s.a = "pause" -> Len(Advs(ev)) = 0 /\ ty = <<"paused">>
       [] s.a = "reset" -> Len(Advs(ev)) = 0 /\ ty = <<"reset_done">>
       [] s.a = "init"  -> Quiet(ev)
       [] s.a = "resolve" ->
            IF s.t <= m.stale THEN Quiet(ev)
            ELSE /\ Len(Advs(ev)) = 0
                 /\ IF ~InitDone(s) THEN ty = <<>>
                    ELSE IF failInit \in {1, 3} THEN ty = <<"error">>
                    ELSE ty = <<"ready">> /\ \E j \in 1..Len(ev) : ev[j].k = "new" /\ ev[j].b = s.t /\ ev[j].c = 1
                                          /\ \E q \in 1..Len(ev) : ev[q].k = "post" /\ ev[q].a = ev[j].a
       [] s.a = "step" ->
            IF m.gen = 0 THEN ty = <<"error">> /\ Len(Advs(ev)) = 0
            ELSE /\ OfSearch(ev, m.gen)
                 /\ IF Has(ev, "throw") THEN ty = <<"error">> \/ ty = <<"snapshot", "error">>
                    ELSE /\ ty \in {<<"snapshot", "front">>, <<"front", "snapshot">>}
                         /\ NewCyc(ev, m.cyc) = (IF m.cyc + s.t > total THEN total ELSE m.cyc + s.t)
       [] s.a = "eval" ->
            /\ Len(Advs(ev)) = 0
            /\ IF m.gen = 0 \/ s.miss THEN ty = <<"error">>
               ELSE ty = <<"eval">> /\ LET e == Posts(ev)[1] IN e.a = m.gen /\ e.b = s.t /\ e.note = "7:val"
       [] s.a = "start" ->
            IF m.gen = 0 THEN ty = <<"error">> /\ Len(Advs(ev)) = 0
            ELSE IF Turn(m, s) THEN TurnOK(m, s, total) ELSE Quiet(ev)
       [] s.a = "fire" -> IF Turn(m, s) THEN TurnOK(m, s, total) ELSE Quiet(ev)
       [] OTHER -> FALSE

After(m, s) ==
  LET ev == s.ev
      made == s.a = "resolve" /\ s.t > m.stale /\ Has(ev, "new")
      gen == IF s.a = "reset" THEN 0
             ELSE IF made THEN ev[CHOOSE j \in 1..Len(ev) : ev[j].k = "new"].a ELSE m.gen
      cyc == IF gen = 0 THEN 0 ELSE IF s.a = "resolve" /\ ~made THEN m.cyc ELSE NewCyc(ev, m.cyc)
  IN [m EXCEPT !.gen = gen, !.cyc = cyc,
        !.started = IF Stopped(m, s) \/ made THEN FALSE ELSE IF Turn(m, s) THEN TRUE ELSE m.started,
        !.live = IF Turn(m, s) THEN Timers(ev) ELSE m.live,
        !.stale = IF s.a = "reset" THEN m.last ELSE m.stale,
        !.last = IF s.a = "init" THEN s.t ELSE m.last,
        !.snap = Snap(m, s), !.front = Frnt(m, s)]
=============================================================================
