------------------------------- MODULE Search -------------------------------
(* Design model of a whole search: the orchestrator (iterations, dispatch to  *)
(* at most Workers tasks, one result at a time, scope exit), the tasks, their *)
(* panics, and what applying a result does to the hall of fame, the best, the *)
(* published members and the population (migration). Checked for every        *)
(* completion order, and the source of the schedules replayed in the real     *)
(* code (EMIT). The data relations are those of SearchDefs, which also judge  *)
(* recorded runs; here TLC shows that they imply the global guarantees.       *)
EXTENDS SearchDefs, TLC

CONSTANTS NPops, NIter, Workers,
          CRASH,    (* may a task panic? *)
          DATA,     (* model members, or only the schedule? *)
          EMIT,     (* print the completion schedule of every run *)
          MaxSize, Warm, TopN

VARIABLES pc,       (* orchestrator: iter, loop, unwind, ret, panic *)
          iter, todo, infl, ts, chan, pres, done, cs, cc, ev, hist,
          lim, pops, res, hall, best, bsp, offered, nid
ctl == <<pc, iter, todo, infl, ts, chan, pres, done, cs, cc, ev, hist>>
dat == <<lim, pops, res, hall, best, bsp, offered, nid>>
vars == <<ctl, dat>>

Pops == 1..NPops
Total == NPops * NIter
(* equations: complexity, loss, feasible otherwise? *)
Univ == IF DATA THEN {<<1, 2, TRUE>>, <<2, 1, TRUE>>, <<2, 2, FALSE>>, <<3, 1, TRUE>>} ELSE {<<1, 1, TRUE>>}
Mk(u, id, pa, b) == [id |-> id, pa |-> pa, b |-> b, c |-> u[1], l |-> u[2], k |-> u[2] + u[1], e |-> u]
Feas(m, L) == m.c <= L /\ m.e[3]
Off(m, L) == [m |-> m, lim |-> L]
Base(p) == 10 * p

InitPops == [Pops -> Univ]
Init ==
  \E f \in InitPops :
    LET m == [p \in Pops |-> Mk(f[p], Base(p), 0, 0)]
        feas == {p \in Pops : Feas(m[p], MaxSize)}
    IN
    /\ pc = "iter" /\ iter = 0 /\ todo = {} /\ infl = <<>> /\ chan = <<>>
    /\ ts = [p \in Pops |-> "idle"] /\ pres = [p \in Pops |-> TRUE] /\ done = [p \in Pops |-> 0]
    /\ cs = 0 /\ cc = 0 /\ ev = 0 /\ hist = <<>>
    /\ lim = [p \in Pops |-> MaxSize] /\ res = [p \in Pops |-> <<>>]
    /\ pops = m
    /\ hall = HallAfter(<<>>, [p \in Pops |-> m[p]], MaxSize, Feas)
    /\ best = IF feas = {} THEN m[1] ELSE m[CHOOSE p \in feas : \A q \in feas : m[p].l <= m[q].l]
    /\ bsp = [p \in Pops |-> IF TopN > 0 THEN <<m[p]>> ELSE <<>>]
    /\ offered = {Off(m[p], MaxSize) : p \in Pops}
    /\ nid = [p \in Pops |-> Base(p) + 1]

NewIter == /\ pc = "iter" /\ iter < NIter
           /\ iter' = iter + 1 /\ todo' = Pops /\ pc' = "loop"
           /\ UNCHANGED <<infl, ts, chan, pres, done, cs, cc, ev, hist, dat>>
Return == /\ pc = "iter" /\ iter = NIter /\ pc' = "ret"
          /\ UNCHANGED <<iter, todo, infl, ts, chan, pres, done, cs, cc, ev, hist, dat>>
EndIter == /\ pc = "loop" /\ todo = {} /\ infl = <<>> /\ pc' = "iter"
           /\ UNCHANGED <<iter, todo, infl, ts, chan, pres, done, cs, cc, ev, hist, dat>>

Dispatch(p) ==
  /\ pc = "loop" /\ Len(infl) < Workers /\ p \in todo
  /\ \E L \in WarmupSizes(MaxSize, cs, Total, Warm) : lim' = [lim EXCEPT ![p] = L]
  /\ todo' = todo \ {p} /\ infl' = Append(infl, p) /\ pres' = [pres EXCEPT ![p] = FALSE]
  /\ ts' = [ts EXCEPT ![p] = "queued"] /\ cs' = cs + 1
  /\ UNCHANGED <<pc, iter, chan, done, cc, ev, hist, pops, res, hall, best, bsp, offered, nid>>

Start(p) == /\ ts[p] = "queued" /\ ts' = [ts EXCEPT ![p] = "run"]
            /\ UNCHANGED <<pc, iter, todo, infl, chan, pres, done, cs, cc, ev, hist, dat>>
(* a cycle ends with the population's member kept or replaced by a new one; its best-seen record holds both *)
Finish(p) ==
  /\ ts[p] = "run" /\ ts' = [ts EXCEPT ![p] = "sent"]
  /\ chan' = Append(chan, [p |-> p, ok |-> TRUE])
  /\ \E u \in Univ :
       LET n == Mk(u, nid[p], pops[p].id, pops[p].b + 1)
       IN /\ nid' = [nid EXCEPT ![p] = @ + 1]
          /\ \E keep \in (IF DATA THEN BOOLEAN ELSE {FALSE}) :
               res' = [res EXCEPT ![p] = [m |-> IF keep THEN pops[p] ELSE n,
                                          bs |-> HallAfter(<<>>, <<pops[p], n>>, lim[p], Feas),
                                          seen |-> {pops[p], n}]]
  /\ UNCHANGED <<pc, iter, todo, infl, pres, done, cs, cc, ev, hist, lim, pops, hall, best, bsp, offered>>
Panic(p) == /\ CRASH /\ ts[p] = "run" /\ ts' = [ts EXCEPT ![p] = "dead"]
            /\ chan' = Append(chan, [p |-> p, ok |-> FALSE])
            /\ UNCHANGED <<pc, iter, todo, infl, pres, done, cs, cc, ev, hist, dat>>

Recv == pc = "loop" /\ (Len(infl) = Workers \/ todo = {}) /\ infl # <<>> /\ chan # <<>>
Pos(p) == CHOOSE i \in 1..Len(infl) : infl[i] = p
Apply ==
  /\ Recv /\ Head(chan).ok
  /\ LET p == Head(chan).p
         R == res[p]
         L == lim[p]
         off == {R.bs[c] : c \in DOMAIN R.bs} \cup {R.m}
         hall2 == HallAfter(HallAfter(hall, SetToSeq({R.bs[c] : c \in DOMAIN R.bs}), L, Feas), <<R.m>>, L, Feas)
         best2 == BestAfter(BestAfter(best, SetToSeq({R.bs[c] : c \in DOMAIN R.bs}), L, MaxSize, Feas), <<R.m>>, L, MaxSize, Feas)
         others == UNION {Set(bsp[q]) : q \in Pops \ {p}}
         migrants == IF DATA THEN others \cup {hall2[c] : c \in NonDominated(hall2)} ELSE {}
     IN /\ hist' = IF EMIT THEN Append(hist, Pos(p) - 1) ELSE hist
        /\ infl' = SelectSeq(infl, LAMBDA q : q # p)
        /\ chan' = Tail(chan) /\ pres' = [pres EXCEPT ![p] = TRUE] /\ ts' = [ts EXCEPT ![p] = "idle"]
        /\ done' = [done EXCEPT ![p] = @ + 1] /\ cc' = cc + 1 /\ ev' = ev + p
        /\ hall' = hall2 /\ best' = best2
        /\ bsp' = [bsp EXCEPT ![p] = IF TopN > 0 THEN <<R.m>> ELSE <<>>]
        /\ offered' = IF DATA THEN offered \cup {Off(m, L) : m \in R.seen} ELSE offered
        /\ \/ pops' = [pops EXCEPT ![p] = R.m] /\ UNCHANGED nid
           \/ \E src \in migrants :
                /\ pops' = [pops EXCEPT ![p] = [src EXCEPT !.id = nid[p], !.pa = src.id, !.b = R.m.b + 1]]
                /\ nid' = [nid EXCEPT ![p] = @ + 1]
  /\ UNCHANGED <<pc, iter, todo, cs, lim, res>>
Fail == /\ Recv /\ ~Head(chan).ok
        /\ pc' = "unwind" /\ chan' = Tail(chan) /\ infl' = SelectSeq(infl, LAMBDA q : q # Head(chan).p)
        /\ UNCHANGED <<iter, todo, ts, pres, done, cs, cc, ev, hist, dat>>
(* leaving the scope waits for the tasks still running; their results are dropped *)
Surface == /\ pc = "unwind" /\ \A p \in Pops : ts[p] \notin {"queued", "run"} /\ pc' = "panic"
           /\ UNCHANGED <<iter, todo, infl, ts, chan, pres, done, cs, cc, ev, hist, dat>>

TaskStep(p) == Start(p) \/ Finish(p) \/ Panic(p)
Orch == NewIter \/ Return \/ EndIter \/ (\E p \in Pops : Dispatch(p)) \/ Apply \/ Fail \/ Surface
Next == Orch \/ \E p \in Pops : TaskStep(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Orch) /\ \A p \in Pops : WF_vars(TaskStep(p))

(* ------------------------------------------------------------- guarantees *)
Busy(p) == ts[p] \in {"queued", "run", "sent", "dead"}
SumSeqOf(f) == FoldLeft(LAMBDA a, p : a + f[p], 0, SetToSeq(DOMAIN f))
(* C06 *)
Cycles ==
  /\ cc = SumSeqOf(done) /\ cs = cc + Cardinality({p \in Pops : Busy(p)})
  /\ \A p \in Pops : done[p] <= NIter /\ (pres[p] <=> ~Busy(p))
  /\ \A i, j \in 1..Len(infl) : i # j => infl[i] # infl[j]
  /\ pc = "loop" => {infl[i] : i \in 1..Len(infl)} = {p \in Pops : Busy(p)}
  /\ Len(infl) <= Workers
  /\ pc = "ret" => cc = Total /\ \A p \in Pops : done[p] = NIter /\ pres[p]
(* C01: every entry is the cheapest feasible member ever offered at its complexity *)
HallBest ==
  LET el(c) == {o.m : o \in {x \in offered : x.m.c = c /\ Feas(x.m, x.lim)}}
  IN /\ DOMAIN hall = {o.m.c : o \in {x \in offered : Feas(x.m, x.lim)}}
     /\ \A c \in DOMAIN hall : hall[c] \in el(c) /\ \A m \in el(c) : hall[c].k <= m.k
(* C05 *)
BestIsBest ==
  LET el == {o.m : o \in {x \in offered : Feas(x.m, x.lim)}}
  IN el # {} => /\ Feas(best, MaxSize)
                /\ \A c \in DOMAIN hall : best.l <= hall[c].l
(* C24 *)
KnownMembers == {pops[p] : p \in Pops} \cup {hall[c] : c \in DOMAIN hall} \cup {best} \cup UNION {Set(bsp[p]) : p \in Pops}
                \cup {o.m : o \in offered}
IdsDenote == \A a, b \in KnownMembers : a.id = b.id => a.e = b.e
(* C03 *)
FrontRight == FrontOK(hall, FrontOf(hall))
(* C07 *)
Ends == <>(pc \in {"ret", "panic"})
FaultSurfaces == pc = "ret" => \A p \in Pops : ts[p] # "dead"
NoFalseFault == pc = "panic" => \E p \in Pops : ts[p] = "dead"
(* the step taken when a result is applied is one the trace specification accepts *)
Accepted ==
  [][cc' # cc =>
       LET p == Head(chan).p
           R == res[p]
           off == {R.bs[c] : c \in DOMAIN R.bs} \cup {R.m}
       IN /\ HallOK(hall, hall', off, lim[p], Feas)
          /\ BestOK(best, best', off, lim[p], MaxSize, Feas)
          /\ MigrationOK(<<R.m>>, <<pops'[p]>>, UNION {Set(bsp'[q]) : q \in Pops \ {p}} \cup {hall'[c] : c \in NonDominated(hall')},
                         nid[p], nid'[p], R.m.b + 1, R.m.b + 2)
          /\ BestSubPopOK(<<R.m>>, bsp'[p], TopN)]_vars
Monotone == [][\A c \in DOMAIN hall : c \in DOMAIN hall' /\ hall'[c].k <= hall[c].k]_vars

Emit == (EMIT /\ pc = "ret") => PrintT(<<"SCHED", hist>>)
=============================================================================
