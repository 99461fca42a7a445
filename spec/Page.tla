-------------------------------- MODULE Page --------------------------------
(* Design model of the Run pane: the page's store, the worker, and the two   *)
(* message queues between them.  It produces the observations the real page  *)
(* is recorded with; the monitor of PageDefs judges both.                    *)
(*   CLEAR: what arrived of the previous search is dropped when a search     *)
(*          becomes ready;  IDLE: leaving the pane, whose worker goes away,  *)
(*          ends the life cycle;  FOLLOW: the selection follows the front.   *)
(* CLEAR and IDLE off is the original code, and TLC finds both defects.      *)
EXTENDS PageDefs, TLC
CONSTANTS Total, MaxLen, MaxGen, MaxQ, CLEAR, IDLE, FOLLOW, EMIT, WARM, HASVAL,
          Use  \* what the user does besides initializing and starting
VARIABLES pg,     \* the page: run, status, d (as in the monitor)
          wk,     \* the worker: gen, cyc, loop, tm (timers pending, each with its loop), no (current loop), waits, resets
          qw, qp, \* commands and messages on their way
          nGen, nRid, mon, good, word
vars == <<pg, wk, qw, qp, nGen, nRid, mon, good, word>>

NoWorker == [gen |-> 0, cyc |-> 0, loop |-> FALSE, no |-> 0, tm |-> <<>>, waits |-> <<>>, resets |-> 0]
(* what the engine reports: same ids in every search, the front changes as the search goes on *)
F(g, c) == CASE c = 0 -> <<<<g, 30, 3, 1>>>>
             [] c = 1 -> <<<<g, 10, 1, 2>>, <<g, 31, 3, 1>>>>
             [] OTHER -> <<<<g, 10, 1, 2>>, <<g, 40, 4, 1>>>>
Msg(t) == [t |-> t]
SnapM(g, c) == [t |-> "snapshot", g |-> g, c |-> c, n |-> Total, e |-> c, best |-> F(g, c)[1][2], bcx |-> F(g, c)[1][3],
                pts |-> [j \in 1..Len(F(g, c)) |-> <<F(g, c)[j][2], F(g, c)[j][3], F(g, c)[j][4]>>]]
FrontM(g, c) == [t |-> "front", f |-> F(g, c)]
Val == IF HASVAL THEN <<0>> ELSE <<>>

Init == /\ pg = [run |-> FALSE, status |-> "idle", d |-> Clean]
        /\ wk = NoWorker /\ qw = <<>> /\ qp = <<>> /\ nGen = 0 /\ nRid = 0 /\ mon = Mon0 /\ good = TRUE /\ word = <<>>

(* ---- what the page shows ---- *)
NoFit == [mode |-> "none"]
View(p) ==
  LET d == p.d sh == Shown(d) IN
  [run |-> p.run, status |-> p.status, err |-> TRUE,
   snap |-> IF d.snap.on THEN <<d.snap.g, d.snap.c, d.snap.n, d.snap.e>> ELSE <<>>,
   rows |-> Rev([j \in 1..Len(d.front) |-> <<d.front[j][1], d.front[j][2], d.front[j][4], Flag(d.front[j][2] = d.sel)>>]),
   eq |-> IF sh = <<>> THEN <<>> ELSE <<sh[1], sh[2]>>, cx |-> IF sh = <<>> THEN -1 ELSE sh[3],
   train |-> IF sh = <<>> THEN <<>> ELSE Metric(d, "train"), hasVal |-> sh # <<>> /\ d.val # <<>>,
   val |-> IF sh # <<>> /\ d.val # <<>> THEN Metric(d, "val") ELSE <<>>,
   pareto |-> [j \in 1..Len(d.snap.pts) |-> <<d.snap.pts[j][1], d.snap.pts[j][2], d.snap.pts[j][3], Flag(d.snap.pts[j][1] = d.sel)>>],
   ls |-> (IF sh # <<>> /\ InFront(d, sh[2]) THEN d.front[CHOOSE q \in 1..Len(d.front) : d.front[q][2] = sh[2]][4] ELSE -1),
   mets |-> Table(Flag(sh # <<>> /\ Metric(d, "train") # <<>>) + Flag(sh # <<>> /\ d.val # <<>> /\ Metric(d, "val") # <<>>)),
   rate |-> -1, fit |-> NoFit,
   on |-> [start |-> p.status \in {"ready", "paused"}, pause |-> p.status = "running", reset |-> TRUE, init |-> TRUE,
           iters |-> p.status \in {"idle", "error"}]]
Observe(ch, a, id, cx, name, m, posts, p) ==
  LET s == [a |-> a, id |-> id, cx |-> cx, name |-> name, m |-> m, now |-> 1, posts |-> posts, view |-> View(p), conf |-> [on |-> FALSE]]
  IN /\ good' = (good /\ StepOK(mon, s))
     /\ mon' = After(mon, s)
     /\ word' = IF EMIT THEN Append(word, ch) ELSE word
     /\ pg' = p
Cmd(t) == [t |-> t, id |-> -1, part |-> "", rid |-> "", y |-> -1, xs |-> <<-1>>]
Eval(id, part, n) == [t |-> "evaluate", id |-> id, part |-> part, rid |-> ToString(n), y |-> -1, xs |-> <<-1>>]
Evals(id, n) == IF HASVAL THEN <<Eval(id, "train", n), Eval(id, "val", n + 1)>> ELSE <<Eval(id, "train", n)>>
EvalsV(id, n, d) == IF d.val # <<>> THEN Evals(id, n) ELSE <<Eval(id, "train", n)>>
Room == Len(qw) + 2 <= MaxQ /\ Len(qp) + 3 <= MaxQ
Go(d) == IF FOLLOW THEN Follow(d) ELSE d

(* ---- clicks ---- *)
Tab(name) ==
  IF name = "Run"
  THEN ~pg.run /\ Observe("U", "tab", -1, -1, "Run", Msg(""), <<>>, [pg EXCEPT !.run = TRUE]) /\ UNCHANGED <<wk, qw, qp, nGen, nRid>>
  ELSE /\ pg.run
       /\ Observe("D", "tab", -1, -1, "Data", Msg(""), <<>>,
                  [pg EXCEPT !.run = FALSE, !.status = IF IDLE /\ pg.status \in {"initializing", "ready", "running", "paused"} THEN "idle" ELSE pg.status])
       /\ wk' = NoWorker /\ qw' = <<>> /\ qp' = <<>> /\ UNCHANGED <<nGen, nRid>>
Click(ch, a, enabled, p) ==
  /\ pg.run /\ enabled /\ Room
  /\ Observe(ch, a, -1, -1, "", Msg(""), <<Cmd(a)>>, p)
  /\ qw' = Append(qw, Cmd(a)) /\ UNCHANGED <<wk, qp, nGen, nRid>>
Select(ch, a, id, cx) ==
  /\ pg.run /\ Room
  /\ LET d == Go([pg.d EXCEPT !.sel = id, !.req = cx])
         es == EvalsV(id, nRid, pg.d) \o (IF d.sel # id THEN EvalsV(d.sel, nRid + 2, pg.d) ELSE <<>>)
     IN /\ Observe(ch, a, id, cx, "", Msg(""), es, [pg EXCEPT !.d = d])
        /\ qw' = qw \o es
  /\ nRid' = nRid + 4 /\ UNCHANGED <<wk, qp, nGen>>
Clicks ==
  \/ Tab("Run") \/ ("tab" \in Use /\ Tab("Data"))
  \/ Click("I", "init", nGen < MaxGen, [pg EXCEPT !.status = "initializing", !.d = Clean])
  \/ Click("S", "start", pg.status \in {"ready", "paused"}, [pg EXCEPT !.status = "running"])
  \/ "pause" \in Use /\ Click("P", "pause", pg.status = "running", pg)
  \/ "reset" \in Use /\ Click("X", "reset", TRUE, pg)
  \/ "row" \in Use /\ pg.d.front # <<>> /\ LET r == pg.d.front[Len(pg.d.front)] IN Select("1", "row", r[2], r[3])
  \/ "row" \in Use /\ Len(pg.d.front) > 1 /\ LET r == pg.d.front[1] IN Select("2", "row", r[2], r[3])
  \/ "point" \in Use /\ pg.d.snap.pts # <<>> /\ LET r == pg.d.snap.pts[1] IN Select("a", "point", r[1], r[2])
  \/ "point" \in Use /\ Len(pg.d.snap.pts) > 1 /\ LET r == pg.d.snap.pts[Len(pg.d.snap.pts)] IN Select("z", "point", r[1], r[2])

(* ---- the worker ---- *)
Silent(ch, a) == Observe(ch, a, -1, -1, "", Msg(""), <<>>, pg) /\ UNCHANGED <<nRid>>
Turn(w, id) == IF w.cyc < Total
               THEN <<[w EXCEPT !.cyc = w.cyc + 1, !.loop = TRUE, !.no = id, !.tm = Append(w.tm, id)], <<SnapM(w.gen, w.cyc + 1), FrontM(w.gen, w.cyc + 1)>>>>
               ELSE <<[w EXCEPT !.loop = FALSE, !.no = id], <<SnapM(w.gen, w.cyc), FrontM(w.gen, w.cyc), Msg("done")>>>>
ToWork ==
  /\ qw # <<>> /\ Room
  /\ LET c == Head(qw) w == wk
         err == [t |-> "error", soft |-> FALSE]
         out == CASE c.t = "init" -> <<[w EXCEPT !.loop = FALSE, !.waits = Append(w.waits, w.resets)], <<>>>>
                  [] c.t = "start" -> IF w.gen = 0 THEN <<w, <<err>>>> ELSE IF w.loop THEN <<w, <<>>>> ELSE Turn(w, w.no + 1)
                  [] c.t = "pause" -> <<[w EXCEPT !.loop = FALSE], <<Msg("paused")>>>>
                  [] c.t = "reset" -> <<[w EXCEPT !.loop = FALSE, !.gen = 0, !.resets = w.resets + 1], <<Msg("reset_done")>>>>
                  [] c.t = "evaluate" ->
                       IF w.gen = 0 THEN <<w, <<err>>>>
                       ELSE IF \E j \in 1..Len(F(w.gen, w.cyc)) : F(w.gen, w.cyc)[j][2] = c.id
                            THEN <<w, <<[t |-> "eval", rid |-> c.rid, g |-> w.gen, id |-> c.id, part |-> c.part]>>>>
                            ELSE <<w, <<[t |-> "error", soft |-> TRUE]>>>>
     IN wk' = out[1] /\ qp' = qp \o out[2]
  /\ qw' = Tail(qw) /\ Silent("w", "towork") /\ UNCHANGED nGen
Fire ==
  /\ wk.tm # <<>> /\ Room
  /\ LET w == [wk EXCEPT !.tm = Tail(wk.tm)] IN
     IF wk.loop /\ Head(wk.tm) = wk.no THEN LET o == Turn(w, wk.no) IN wk' = o[1] /\ qp' = qp \o o[2] ELSE wk' = w /\ UNCHANGED qp
  /\ Silent("F", "work") /\ UNCHANGED <<qw, nGen>>
Resolve ==
  /\ wk.waits # <<>> /\ Room
  /\ IF Head(wk.waits) # wk.resets
     THEN wk' = [wk EXCEPT !.waits = Tail(wk.waits)] /\ UNCHANGED <<qp, nGen>>
     ELSE /\ wk' = [wk EXCEPT !.waits = Tail(wk.waits), !.gen = nGen + 1, !.cyc = 0, !.loop = FALSE]
          /\ qp' = Append(qp, [t |-> "ready", g |-> nGen + 1, train |-> <<1, 2>>, val |-> Val, rows |-> <<>>]) /\ nGen' = nGen + 1
  /\ Silent("R", "work") /\ UNCHANGED qw

(* ---- messages delivered to the page ---- *)
ToPage ==
  /\ qp # <<>> /\ Len(qw) + 2 <= MaxQ
  /\ LET g == Head(qp) d == pg.d
         clean == IF CLEAR THEN Clean ELSE d
         p == CASE g.t = "ready" -> [pg EXCEPT !.status = "ready", !.d = [clean EXCEPT !.train = g.train, !.val = g.val, !.rows = g.rows]]
                [] g.t = "reset_done" -> [pg EXCEPT !.status = "idle", !.d = Clean]
                [] g.t = "snapshot" -> [pg EXCEPT !.d.snap = [on |-> TRUE, g |-> g.g, c |-> g.c, n |-> g.n, e |-> g.e, best |-> g.best, bcx |-> g.bcx, pts |-> g.pts]]
                [] g.t = "front" -> [pg EXCEPT !.d = Go([d EXCEPT !.front = g.f])]
                [] g.t = "eval" -> [pg EXCEPT !.d.evals = {e \in d.evals : ~(e.id = g.id /\ e.part = g.part)} \cup {[id |-> g.id, part |-> g.part, g |-> g.g]}]
                [] g.t = "done" -> [pg EXCEPT !.status = "done"]
                [] g.t = "paused" -> [pg EXCEPT !.status = "paused"]
                [] OTHER -> IF g.soft THEN pg ELSE [pg EXCEPT !.status = "error"]
         es == IF p.d.sel # -1 /\ p.d.sel # d.sel THEN EvalsV(p.d.sel, nRid, p.d) ELSE <<>>
     IN /\ Observe("p", "topage", -1, -1, "", g, es, p)
        /\ qw' = qw \o es /\ nRid' = IF es = <<>> THEN nRid ELSE nRid + 2
  /\ qp' = Tail(qp) /\ UNCHANGED <<wk, nGen>>

Warm == <<"U", "I", "w", "R", "p", "S", "w">>
Next == /\ Len(word) < MaxLen
        /\ (Clicks \/ ToWork \/ Fire \/ Resolve \/ ToPage)
        /\ (EMIT /\ Len(word) < WARM) => word'[Len(word')] = Warm[Len(word')]
Work == ToWork \/ Fire \/ Resolve \/ ToPage
Spec == Init /\ [][Next]_vars /\ WF_vars(Work)

(* ---- checked on the model ---- *)
Judged == good
Gens(d) == {d.front[j][1] : j \in 1..Len(d.front)} \cup (IF d.snap.on THEN {d.snap.g} ELSE {}) \cup {e.g : e \in d.evals}
(* once a search is ready and nothing else was asked for, all that is shown is of one search *)
OneSearch == ~mon.pend => Cardinality(Gens(pg.d)) <= 1
Quiet == qw = <<>> /\ qp = <<>> /\ wk.tm = <<>> /\ wk.waits = <<>>
(* when everything has arrived the page claims neither to run nor to initialise *)
Settled == Quiet /\ pg.run => pg.status \notin {"initializing", "running"}
AgreesWithMonitor == (~(mon.pend /\ mon.soiled)) => pg.status = mon.status /\ pg.d.front = mon.d.front /\ pg.d.sel = mon.d.sel
(* request numbers, loop numbers and counts of resets matter only relative to the current ones *)
Plain == <<pg, [wk EXCEPT !.no = 0, !.resets = 0, !.tm = [j \in 1..Len(wk.tm) |-> wk.tm[j] = wk.no], !.waits = [j \in 1..Len(wk.waits) |-> wk.waits[j] = wk.resets]],
           [j \in 1..Len(qw) |-> <<qw[j].t, qw[j].id, qw[j].part>>], [j \in 1..Len(qp) |-> IF qp[j].t = "eval" THEN [qp[j] EXCEPT !.rid = ""] ELSE qp[j]],
           nGen, [mon EXCEPT !.rids = {}], good, word>>
Bounded == Len(wk.tm) <= 2 /\ Len(wk.waits) <= 2 /\ nGen <= MaxGen /\ Len(qw) <= MaxQ /\ Len(qp) <= MaxQ
Emit == (EMIT /\ Len(word) = MaxLen) => PrintT(<<"WORD", word>>)
=============================================================================
