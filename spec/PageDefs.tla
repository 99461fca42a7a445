------------------------------ MODULE PageDefs ------------------------------
(* The Run pane of the browser page (web/ui/src/app) as its user sees it.     *)
(* One step is one macro-task: a click or an edit, a message delivered to the *)
(* page or to the worker, a turn of the worker.  A step record is             *)
(*   [a |-> action, id, cx, name |-> its arguments, m |-> message delivered   *)
(*    to the page, now |-> clock, posts |-> commands sent to the worker,      *)
(*    view |-> what is on the page afterwards]                                *)
(* The reference page is a deterministic machine (After); ViewOK compares     *)
(* what is shown with it, PostsOK what was asked of the worker.               *)
(* Rows of a front: <<search, id, complexity, loss>>.                         *)
EXTENDS Integers, Sequences, FiniteSets

NoSnap == [on |-> FALSE, g |-> 0, c |-> 0, n |-> 0, e |-> 0, best |-> -1, bcx |-> 0, pts |-> <<>>]
Clean == [front |-> <<>>, snap |-> NoSnap, sel |-> -1, req |-> 0, evals |-> {}, train |-> <<>>, val |-> <<>>, rows |-> <<>>,
          last |-> <<>>, lo |-> 0, hi |-> -1]
(* pend: an initialisation was asked for and is not ready; soiled: while pending, something of the previous search arrived *)
(* ask: the columns of the latest initialisation; same: the data and columns have not been edited since               *)
Mon0 == [run |-> FALSE, status |-> "idle", pend |-> FALSE, soiled |-> FALSE, d |-> Clean, rids |-> {}, nops |-> 1,
         ask |-> [y |-> -1, xs |-> <<-1>>], same |-> TRUE]

Rev(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a < b THEN b ELSE a

(* ---- which equation of a front stands for a requested complexity ---- *)
Pick(f, req) ==
  LET at == {j \in 1..Len(f) : f[j][3] = req}
      low == {j \in 1..Len(f) : f[j][3] <= req}
      j == IF at # {} THEN CHOOSE q \in at : \A p \in at : p <= q
           ELSE IF low # {} THEN CHOOSE q \in low : \A p \in low : f[p][3] < f[q][3] \/ (f[p][3] = f[q][3] /\ p <= q)
           ELSE CHOOSE q \in 1..Len(f) : \A p \in 1..Len(f) : f[q][3] < f[p][3] \/ (f[p][3] = f[q][3] /\ q <= p)
  IN f[j][2]
Follow(d) == IF d.req = 0 \/ d.front = <<>> THEN d ELSE [d EXCEPT !.sel = Pick(d.front, d.req)]
InFront(d, id) == \E j \in 1..Len(d.front) : d.front[j][2] = id
CxOf(d, id) == d.front[CHOOSE j \in 1..Len(d.front) : d.front[j][2] = id][3]

(* ---- the reference page ---- *)
Snapshot(d, m, now) ==
  LET dt == IF d.last = <<>> THEN 0 ELSE now - d.last[1]
      de == IF d.last = <<>> THEN -1 ELSE m.e - d.last[2]
      r  == IF dt > 0 /\ de >= 0 /\ m.g = d.snap.g THEN (de * 1000000) \div dt ELSE -1
  IN [d EXCEPT !.snap = [on |-> TRUE, g |-> m.g, c |-> m.c, n |-> m.n, e |-> m.e, best |-> m.best, bcx |-> m.bcx, pts |-> m.pts],
        !.last = <<now, m.e>>,
        !.lo = IF r < 0 THEN d.lo ELSE IF d.hi < 0 THEN r ELSE MinI(d.lo, r),
        !.hi = IF r < 0 THEN d.hi ELSE MaxI(d.hi, r)]
Delivered(m, s) ==
  LET g == s.m d == m.d soil == [m EXCEPT !.soiled = m.pend] IN
  CASE g.t = "ready" -> [m EXCEPT !.status = "ready", !.pend = FALSE, !.soiled = FALSE,
                                  !.d = [Clean EXCEPT !.train = g.train, !.val = g.val, !.rows = g.rows]]
    [] g.t = "reset_done" -> [m EXCEPT !.status = "idle", !.pend = FALSE, !.soiled = FALSE, !.d = Clean]
    [] g.t = "snapshot" -> [soil EXCEPT !.d = Snapshot(d, g, s.now)]
    [] g.t = "front" -> [soil EXCEPT !.d = Follow([d EXCEPT !.front = g.f])]
    [] g.t = "eval" -> [soil EXCEPT !.d.evals = {e \in d.evals : ~(e.id = g.id /\ e.part = g.part)} \cup {[id |-> g.id, part |-> g.part, g |-> g.g]}]
    [] g.t = "done" -> [soil EXCEPT !.status = "done"]
    [] g.t = "paused" -> [soil EXCEPT !.status = "paused"]
    [] g.t = "error" -> IF g.soft THEN soil ELSE [soil EXCEPT !.status = "error"]
    [] OTHER -> m
Edits == {"text", "file", "head", "parse", "ycol", "wcol", "xcol"}
Core(m, s) ==
  CASE s.a = "init" -> [m EXCEPT !.status = "initializing", !.pend = TRUE, !.soiled = FALSE, !.d = Clean, !.same = TRUE,
                                 !.ask = [y |-> s.posts[1].y, xs |-> s.posts[1].xs]]
    [] s.a = "start" -> [m EXCEPT !.status = "running"]
    [] s.a = "row" -> [m EXCEPT !.d = Follow([m.d EXCEPT !.sel = s.id, !.req = CxOf(m.d, s.id)])]
    [] s.a = "point" -> [m EXCEPT !.d = Follow([m.d EXCEPT !.sel = s.id, !.req = s.cx])]
    [] s.a = "topage" -> Delivered(m, s)
    [] s.a = "tab" -> IF s.name = "Run" THEN [m EXCEPT !.run = TRUE]
                      ELSE [m EXCEPT !.run = FALSE, !.d.last = <<>>,
                                     !.status = IF m.run /\ m.status \in {"initializing", "ready", "running", "paused"} THEN "idle" ELSE m.status]
    [] s.a \in Edits -> [m EXCEPT !.same = FALSE]
    [] OTHER -> m
Rids(s) == {s.posts[j].rid : j \in {q \in 1..Len(s.posts) : s.posts[q].t = "evaluate"}}
After(m, s) == LET n == IF s.a = "init" /\ (s.posts = <<>> \/ s.posts[1].t # "init") THEN m
                        ELSE IF s.a = "row" /\ ~m.soiled /\ ~InFront(m.d, s.id) THEN m
                        ELSE IF s.a = "row" /\ m.soiled THEN m ELSE Core(m, s)
               IN [n EXCEPT !.rids = m.rids \cup Rids(s), !.nops = IF s.conf.on THEN Len(s.conf.ops) ELSE m.nops]

(* ---- what is shown ---- *)
Shown(d) == IF d.sel = -1 THEN (IF d.snap.on THEN <<d.snap.g, d.snap.best, d.snap.bcx>> ELSE <<>>)
            ELSE IF InFront(d, d.sel) THEN LET j == CHOOSE q \in 1..Len(d.front) : d.front[q][2] = d.sel IN <<d.front[j][1], d.sel, d.front[j][3]>>
            ELSE IF d.snap.on /\ d.snap.best = d.sel THEN <<d.snap.g, d.sel, d.snap.bcx>> ELSE <<>>
EvalOf(d, part) == {e \in d.evals : e.id = d.sel /\ e.part = part}
PartNo(part) == IF part = "train" THEN 1 ELSE 2
Metric(d, part) == IF d.sel = -1 \/ EvalOf(d, part) = {} THEN <<>> ELSE LET e == CHOOSE q \in EvalOf(d, part) : TRUE IN <<e.g, e.id, PartNo(part)>>
Yhat(d, part, n) == LET q == Metric(d, part) IN IF q = <<>> THEN <<>> ELSE [j \in 1..n |-> (q[1] * 10000 + q[2] * 10 + q[3]) * 10 + j - 1]

Col(d, idx, c) == [j \in 1..Len(idx) |-> d.rows[idx[j] + 1][c + 1]]
Pairs(a, b) == {<<a[j], b[j]>> : j \in 1..Len(a)}
Line(x, y, lx, ly) == /\ Len(lx) = Len(y) /\ Len(ly) = Len(y)
                      /\ y # <<>> => Pairs(x, y) = Pairs(lx, ly)
                      /\ \A j \in 1..(Len(lx) - 1) : lx[j] <= lx[j + 1]
FitOK(m, v) ==
  LET d == m.d
      ncols == Len(d.rows[1])
      y == IF m.ask.y = -1 THEN ncols - 1 ELSE m.ask.y
      yt == Yhat(d, "train", Len(d.train))
      yv == Yhat(d, "val", Len(d.val))
  IN IF Len(m.ask.xs) = 1 /\ m.ask.xs # <<-1>>
     THEN LET x == m.ask.xs[1] IN
          /\ v.fit.mode = "curve" /\ v.fit.tx = Col(d, d.train, x) /\ v.fit.ty = Col(d, d.train, y)
          /\ Line(Col(d, d.train, x), yt, v.fit.mx, v.fit.my)
          /\ v.fit.vx = Col(d, d.val, x) /\ v.fit.vy = Col(d, d.val, y)
          /\ Line(Col(d, d.val, x), yv, v.fit.wx, v.fit.wy)
     ELSE /\ v.fit.mode = "parity" /\ v.fit.tx = Col(d, d.train, y) /\ v.fit.ty = yt
          /\ v.fit.vx = Col(d, d.val, y) /\ v.fit.vy = yv

Flag(b) == IF b THEN 1 ELSE 0
(* each metric stands beside its own name; a table shows the first four, or all *)
MetricOf == [mse |-> 1, mae |-> 2, rmse |-> 3, r |-> 4, corr |-> 5, minerr |-> 6, maxerr |-> 7]
Brief == {"rmse", "mae", "r", "maxerr"}
Table(n) == [j \in 1..(4 * n) |-> LET l == <<"rmse", "mae", "r", "maxerr">>[(j % 4) + 1] IN <<l, MetricOf[l]>>]
MetricsOK(v) ==
  LET tables == Flag(v.train # <<>>) + Flag(v.val # <<>>)
      of(l) == Cardinality({j \in 1..Len(v.mets) : v.mets[j][1] = l})
  IN  /\ \A j \in 1..Len(v.mets) : v.mets[j][2] = MetricOf[v.mets[j][1]]
      /\ \A l \in DOMAIN MetricOf : IF l \in Brief THEN of(l) = tables ELSE of(l) <= tables
      /\ of("mse") = of("corr") /\ of("mse") = of("minerr")
ViewOK(m, v) ==
  /\ v.run = m.run
  /\ ~m.run \/ (m.pend /\ m.soiled) \/
     LET d == m.d sh == Shown(d) IN
     /\ v.status = m.status
     /\ m.status = "error" => v.err
     /\ v.snap = IF d.snap.on THEN <<d.snap.g, d.snap.c, d.snap.n, d.snap.e>> ELSE <<>>
     /\ v.rows = Rev([j \in 1..Len(d.front) |-> <<d.front[j][1], d.front[j][2], d.front[j][4], Flag(d.front[j][2] = d.sel)>>])
     /\ v.eq = (IF sh = <<>> THEN <<>> ELSE <<sh[1], sh[2]>>)
     /\ sh # <<>> => v.cx = sh[3]
     /\ v.train = (IF sh = <<>> THEN <<>> ELSE Metric(d, "train"))
     /\ v.hasVal = (sh # <<>> /\ d.val # <<>>)
     /\ v.val = (IF v.hasVal THEN Metric(d, "val") ELSE <<>>)
     /\ MetricsOK(v)
     /\ (sh # <<>> /\ InFront(d, sh[2])) => \E j \in 1..Len(d.front) : d.front[j][2] = sh[2] /\ v.ls = d.front[j][4]
     /\ v.pareto = [j \in 1..Len(d.snap.pts) |-> <<d.snap.pts[j][1], d.snap.pts[j][2], d.snap.pts[j][3], Flag(d.snap.pts[j][1] = d.sel)>>]
     /\ (d.hi < 0) = (v.rate = -1)
     /\ d.hi >= 0 => v.rate >= d.lo - d.lo \div 1000 - 2 /\ v.rate <= d.hi + d.hi \div 1000 + 2
     /\ v.on.start = (m.status \in {"ready", "paused"}) /\ v.on.pause = (m.status = "running") /\ v.on.reset
     /\ v.on.init = (m.nops > 0)
     /\ v.on.iters = (m.status \in {"idle", "error"})
     /\ (m.same /\ d.rows # <<>> /\ sh # <<>> /\ m.status \in {"ready", "running", "paused", "done"}) => FitOK(m, v)

(* ---- what the worker is asked ---- *)
Asked(s) == {<<s.posts[j].id, s.posts[j].part>> : j \in {q \in 1..Len(s.posts) : s.posts[q].t = "evaluate"}}
Parts(d) == IF d.val = <<>> THEN {"train"} ELSE {"train", "val"}
OtherPosts(s) == SelectSeq(s.posts, LAMBDA q : q.t # "evaluate")
PostsOK(m, n, s) ==
  LET d == n.d o == OtherPosts(s) IN
  /\ IF s.a \in {"init", "start", "pause", "reset"} THEN Len(o) = 1 /\ o[1].t = s.a ELSE o = <<>>
  /\ Cardinality(Rids(s)) = Cardinality({j \in 1..Len(s.posts) : s.posts[j].t = "evaluate"}) /\ Rids(s) \cap m.rids = {}
  /\ (m.soiled /\ m.pend) \/ (n.soiled /\ n.pend) \/
     /\ Asked(s) \subseteq ({d.sel, s.id} \X Parts(d))
     /\ s.a \in {"row", "point"} \/ Asked(s) \subseteq ({d.sel} \X Parts(d))
     /\ d.sel # m.d.sel /\ d.sel # -1 => {d.sel} \X Parts(d) \subseteq Asked(s)
     /\ s.a \in {"row", "point"} => \A part \in Parts(d) : EvalOf(d, part) # {} \/ <<d.sel, part>> \in Asked(s)
     /\ d.sel = -1 => Asked(s) = {}
     /\ s.a = "copy" => <<s.cx, s.id>> = s.view.eq

StepOK(m, s) == LET n == After(m, s) IN
  /\ PostsOK(m, n, s)
  /\ s.a = "row" => (m.soiled /\ m.pend) \/ InFront(m.d, s.id)
  /\ ViewOK(n, s.view)
(* everything has been delivered, nothing is waiting *)
EndOK(m, v) == m.run => v.status \notin {"initializing", "running"}
=============================================================================
