---------------------------- MODULE TableCases ----------------------------
(* Recorded calls of the browser front end, judged against TableDefs.        *)
EXTENDS TableDefs, Json, IOUtils
CONSTANT PROP
Cases == JsonDeserialize(IOEnv.TRACE_FILE).cases
NCH == 64
VARIABLES k, i, ok
vars == <<k, i, ok>>

JIngest(c) ==
  LET n == IF Len(c.cells) > 0 THEN Len(c.cells[1]) ELSE c.cols
      rect == Rectangular(c.cells, n) /\ (c.hdr => n = c.cols)
      use == Usable(n, Len(c.cells), c.given, c.x, c.y, c.w)
      clean(S) == \A r \in 1..Len(c.cells) : \A q \in 1..Len(c.cells[r]) : q - 1 \in S => c.cells[r][q] # BAD
      cols == Sorted(XCols(n, c.given, c.x, c.y, c.w))
      vn == Names(c.hdr, c.names, cols)
  IN /\ ~c.panic
     /\ c.ok => rect /\ use /\ clean(UsedCols(n, c.given, c.x, c.y, c.w))
     /\ (rect /\ use /\ clean(0..(n - 1))) => c.ok
     /\ c.ok => /\ HoldsTable([c.d EXCEPT !.hw = c.hw, !.w = c.wt], c.cells, cols, YCol(n, c.y), c.w, vn)
                /\ c.vn = vn
                /\ Len(c.whole) = 1 /\ HoldsTable(c.whole[1], c.cells, cols, YCol(n, c.y), c.w, vn)
JSplit(c) ==
  /\ Partition(c.n, c.train, c.val) /\ ShareOK(c.n, c.vf, Len(c.val)) /\ c.again
  /\ PartOf(c.tr, c.train, c.nf, c.wtd, c.names)
  /\ IF Len(c.val) = 0 THEN c.va = <<>> ELSE Len(c.va) = 1 /\ PartOf(c.va[1], c.val, c.nf, c.wtd, c.names)
JReach(c) == \A q \in 1..c.n : c.hits[q] > 0 /\ c.hits[q] < c.trials
Exact(v, n) == v[2] /\ v[1] = n
JMetrics(c) ==
  LET sst == Sst(c.y, c.w)
      sse == Sse(c.y, c.p, c.w)
      cv == Cov(c.y, c.p)
      vv == Cov(c.y, c.y) * Cov(c.p, c.p)
  IN /\ c.n = Len(c.y)
     /\ Exact(c.mse, sse) /\ Exact(c.mae, Sae(c.y, c.p, c.w)) /\ Exact(c.rmse, sse) /\ ~c.rneg
     /\ c.r2d = sst
     /\ IF sst = 0 THEN c.r2z ELSE Exact(c.r2, sse * SumW(c.w))
     /\ c.cd = vv
     /\ IF vv = 0 THEN c.cs = 0 ELSE Exact(c.corr, cv * cv) /\ (c.cs = Sgn(cv) \/ cv = 0)
     /\ Exact(c.min, MinSet(AbsErr(c.y, c.p))) /\ Exact(c.max, MaxSet(AbsErr(c.y, c.p)))

(* the last pk entries of the front are shown, unaltered *)
JStep(s) ==
  LET L == Len(s.full) m == IF L < s.pk THEN L ELSE s.pk
  IN /\ s.shown = SubSeq(s.full, L - m + 1, L)
     /\ s.best /\ s.evals /\ s.counts[1] = s.counts[3] /\ s.counts[2] = s.counts[4]
     /\ s.absent
     /\ \A q \in 1..Len(s.look) : s.look[q].found /\ s.look[q].same /\ s.look[q].stable
JScores(s) == \A q \in 1..Len(s.look) : \A z \in 1..Len(s.look[q].scores) : s.look[q].scores[z]
JEngine(c) == \A q \in 1..Len(c.steps) : JStep(c.steps[q]) /\ (PROP = "C23" => JScores(c.steps[q]))

(* C30: an option given is the option the search gets, every other one keeps its default *)
JOpts(c) ==
  /\ \A q \in 1..Len(c.names) : LET f == c.names[q] IN
       c.got[f] = IF f \in Set(c.given) THEN c.want[f] ELSE c.dflt[f]
  /\ c.twice /\ c.ops = <<2, 3, 0>> /\ c.progress = FALSE
  /\ LET a == c.a
         P(d) == IF c.kind = "rmse" THEN Point("mse", a, d) ELSE Point(c.kind, a, d)
     IN Exact(c.v, Sum(LAMBDA j : P(c.d[j]), Len(c.d)))

Judge(c) == CASE c.t = "ingest" -> JIngest(c) [] c.t = "split" -> JSplit(c) [] c.t = "reach" -> JReach(c)
              [] c.t = "metrics" -> JMetrics(c) [] c.t = "engine" -> JEngine(c) [] c.t = "opts" -> JOpts(c)

TraceInit == k \in 1..NCH /\ i = 0 /\ ok = TRUE
TraceNext == /\ ok /\ k + i * NCH <= Len(Cases)
             /\ i' = i + 1 /\ k' = k
             /\ ok' = Judge(Cases[k + i * NCH])
Holds == ok
Alias == [k |-> k, i |-> i, ok |-> ok, bad |-> IF ~ok THEN Cases[k + (i - 1) * NCH] ELSE <<>>]
=============================================================================
