----------------------------- MODULE SearchTrace -----------------------------
(* Validation of recorded searches against the orchestrator's specification.  *)
(* One behaviour per recorded run; every event of the run must be a step the  *)
(* specification allows from the state reached so far. PROP selects which     *)
(* conjuncts of the step relations are judged (one property per check), so a  *)
(* violation is attributed to the property it breaks; the state then follows  *)
(* the log, so that the rest of the run is judged too.                        *)
EXTENDS Expr, SearchDefs, Json, TLC, IOUtils

CONSTANT PROP
Runs == JsonDeserialize(IOEnv.TRACE_FILE).runs

VARIABLES r, l, s, ok
vars == <<r, l, s, ok>>

Lim == [q \in 1..Len(Runs) |-> [x \in 1..Len(Runs[q].exprs) |-> Limits(Runs[q].exprs[x], Runs[q].cfg)]]
Cfg == Runs[r].cfg
Pops == 1..Cfg.npops
M(i) == Runs[r].mem[i]
Ms(q) == [i \in 1..Len(q) |-> M(q[i])]
MSet(q) == {M(q[i]) : i \in 1..Len(q)}
Feas(m, lim) == LET L == Lim[r][m.x] IN L.wf /\ L.ok /\ L.cx <= lim
HallFn(pairs) == [c \in {pairs[i][1] : i \in 1..Len(pairs)} |-> M(pairs[CHOOSE i \in 1..Len(pairs) : pairs[i][1] = c][2])]
HSet(pairs) == {M(pairs[i][2]) : i \in 1..Len(pairs)}
Flat(ps) == UNION {MSet(ps[i]) : i \in 1..Len(ps)}
P(p) == PROP = p

(* ------------------------------------------------------------------ state *)
Idle == [ph |-> "idle", disp |-> 0, start |-> 0, end |-> 0, app |-> 0]
S0 == [init |-> FALSE, tasks |-> <<>>, pops |-> <<>>, hall |-> <<>>, best |-> 0, bsp |-> <<>>,
       freq |-> <<>>, cs |-> 0, cc |-> 0, ev |-> 0, done |-> <<>>, cur |-> 0, seen |-> FALSE, fin |-> FALSE]

Ev == Runs[r].ev[l]
E(i) == Runs[r].ev[i]
Task(p) == s.tasks[p]

(* every member an event mentions *)
StMembers(st) == HSet(st.hall) \cup {M(st.best)} \cup Flat(st.bsp)
Mentioned(e) ==
  CASE e.t = "init"   -> Flat(e.pops) \cup HSet(e.hall) \cup {M(e.best)} \cup Flat(e.bsp)
    [] e.t = "disp"   -> StMembers(e.st)
    [] e.t = "start"  -> MSet(e.m)
    [] e.t \in {"end", "as"} -> MSet(e.m) \cup HSet(e.bs) \cup MSet(e.bsp)
    [] e.t = "ae"     -> MSet(e.m) \cup StMembers(e.st)
    [] e.t = "result" -> HSet(e.hall) \cup {M(e.best)} \cup MSet(e.front)
    [] OTHER          -> {}

ExprOk(x) ==
  LET nodes == Runs[r].exprs[x]
  IN /\ Lim[r][x].wf
     /\ \A i \in 1..Len(nodes) :
          /\ nodes[i][1] = 0 => nodes[i][2] < Cfg.nfeat
          /\ nodes[i][1] = 2 => \E k \in 1..Len(Cfg.ops) : Cfg.ops[k] = <<nodes[i][2], nodes[i][3]>>

(* ---------------------------------------------------------------- actions *)
(* Each XOk is the judged part of the action, each XNext the state it leads to *)

HallEntriesOk(h, lim, old) ==
  \A c \in DOMAIN h : LET m == h[c] IN
     /\ m.c = c /\ Lim[r][m.x].cx = c
     /\ Feas(m, IF c \in DOMAIN old /\ old[c] = m THEN Cfg.maxsize ELSE lim)
BestReportOk(b, seen) == Lim[r][b.x].cx = b.c /\ (seen => Feas(b, Cfg.maxsize))

InitOk ==
  LET h == HallFn(Ev.hall)
      all == Flat(Ev.pops)
      b == M(Ev.best)
      seen == \E m \in all : Feas(m, Cfg.maxsize)
  IN /\ ~s.init
     /\ P("C01") => HallOK(<<>>, h, all, Cfg.maxsize, Feas)
     /\ P("C02") => HallEntriesOk(h, Cfg.maxsize, <<>>) /\ BestReportOk(b, seen)
     /\ P("C05") => /\ BestOK(b, b, all, Cfg.maxsize, Cfg.maxsize, Feas)
                    /\ seen => \A c \in DOMAIN h : Loss(b) <= Loss(h[c])
     /\ P("C06") => Len(Ev.pops) = Cfg.npops
     /\ P("C10") => \A p \in Pops : Len(Ev.pops[p]) = Cfg.popsize
     /\ P("C33") => Ev.ev = Cfg.npops * Cfg.popsize
     /\ P("C11") => \A p \in Pops : BestSubPopOK(Ms(Ev.pops[p]), Ms(Ev.bsp[p]), Cfg.topn)
InitNext ==
  [s EXCEPT !.init = TRUE, !.tasks = [p \in Pops |-> Idle], !.pops = Ev.pops, !.hall = Ev.hall, !.best = Ev.best,
            !.bsp = Ev.bsp, !.ev = Ev.ev, !.done = [p \in Pops |-> 0], !.freq = [c \in 1..Cfg.maxsize |-> 1],
            !.seen = \E m \in Flat(Ev.pops) : Feas(m, Cfg.maxsize)]

DispOk ==
  LET p == Ev.p
      st == Ev.st
  IN /\ s.init
     /\ P("C06") => /\ Task(p).ph = "idle" /\ s.done[p] < Cfg.niter
                    /\ st.cs = s.cs + 1 /\ st.cc = s.cc /\ st.ev = s.ev /\ st.tc = Cfg.npops * Cfg.niter
                    /\ \A q \in Pops : st.pres[q] <=> (q # p /\ Task(q).ph = "idle")
                    /\ st.hall = s.hall /\ st.best = s.best /\ st.bsp = s.bsp
     /\ P("C09") => /\ Ev.cur \in WarmupSizes(Cfg.maxsize, s.cs, Cfg.npops * Cfg.niter, Cfg.warm)
                    /\ Ev.cur <= Cfg.maxsize /\ Ev.cur >= s.cur
     /\ P("C20") => /\ st.freq = s.freq
                    /\ Len(Ev.nf) = Len(st.freq)
                    /\ LET sum == SumSeq(st.freq)
                       IN \A c \in 1..Len(Ev.nf) : LET d == Ev.nf[c] * sum - st.freq[c] * 100000 IN d <= sum /\ d >= -sum
DispNext == [s EXCEPT !.tasks[Ev.p] = [Idle EXCEPT !.ph = "disp", !.disp = l], !.cs = Ev.st.cs, !.cur = Max2(s.cur, Ev.cur)]

StartOk ==
  LET p == Ev.p IN
  /\ P("C06") => Task(p).ph = "disp" /\ Ev.m = s.pops[p]
  /\ P("C09") => Task(p).ph = "disp" /\ Ev.cur = E(Task(p).disp).cur
StartNext == [s EXCEPT !.tasks[Ev.p].ph = "run", !.tasks[Ev.p].start = l]

EndOk ==
  LET p == Ev.p
      start == E(Task(p).start)
      bs == HallFn(Ev.bs)
  IN /\ P("C06") => Task(p).ph = "run"
     /\ P("C09") => Ev.cur = start.cur
     /\ P("C10") => Len(Ev.m) = Len(start.m)
     /\ P("C33") => Ev.ev >= Cfg.popsize
     /\ P("C11") => BestSubPopOK(Ms(Ev.m), Ms(Ev.bsp), Cfg.topn)
     (* the best-seen record covers the population the cycle started from *)
     /\ (P("C01") /\ ~Cfg.batch) =>
          \A m \in Eligible(MSet(start.m), Ev.cur, Feas) : m.c \in DOMAIN bs /\ Cost(bs[m.c]) <= Cost(m)
     /\ P("C02") => HallEntriesOk(bs, Ev.cur, <<>>)
EndNext == [s EXCEPT !.tasks[Ev.p].ph = "done", !.tasks[Ev.p].end = l]

AsOk ==
  LET p == Ev.p
      end == E(Task(p).end)
  IN /\ P("C06") => /\ Task(p).ph = "done"
                    /\ Ev.m = end.m /\ Ev.bs = end.bs /\ Ev.bsp = end.bsp /\ Ev.ev = end.ev /\ Ev.cur = end.cur
     /\ P("C09") => Ev.cur = end.cur
     /\ P("C33") => Ev.ev = end.ev
AsNext == [s EXCEPT !.tasks[Ev.p].ph = "apply", !.tasks[Ev.p].app = l]

AeOk ==
  LET p == Ev.p
      st == Ev.st
      a == E(Task(p).app)
      offered == HSet(a.bs) \cup MSet(a.m)
      h == HallFn(s.hall)
      h2 == HallFn(st.hall)
      b == M(s.best)
      b2 == M(st.best)
      seen == s.seen \/ \E m \in offered : Feas(m, a.cur)
      others == UNION {MSet(st.bsp[q]) : q \in Pops \ {p}}
      migrants == (IF Cfg.mig /\ ~Cfg.fr0 THEN others ELSE {}) \cup (IF Cfg.hofmig /\ ~Cfg.frh0 THEN {h2[c] : c \in NonDominated(h2)} ELSE {})
  IN /\ P("C01") => HallOK(h, h2, offered, a.cur, Feas)
     /\ P("C02") => HallEntriesOk(h2, a.cur, h) /\ BestReportOk(b2, seen)
     /\ P("C05") => /\ BestOK(b, b2, offered, a.cur, Cfg.maxsize, Feas)
                    /\ seen => \A c \in DOMAIN h2 : Loss(b2) <= Loss(h2[c])
     /\ P("C06") => /\ Task(p).ph = "apply" /\ st.cc = s.cc + 1 /\ st.cs = s.cs /\ st.ev = s.ev + a.ev
                    /\ \A q \in Pops : st.pres[q] <=> (q = p \/ Task(q).ph = "idle")
     /\ P("C10") => Len(Ev.m) = Len(a.m)
     /\ P("C33") => st.ev = s.ev + a.ev
     /\ P("C11") => /\ MigrationOK(Ms(a.m), Ms(Ev.m), migrants, a.nid, Ev.nid, a.nb, Ev.nb)
                    /\ BestSubPopOK(Ms(a.m), Ms(a.bsp), Cfg.topn)
                    /\ \A q \in Pops : st.bsp[q] = IF q = p THEN a.bsp ELSE s.bsp[q]
     /\ P("C20") => st.freq = FreqAfter(s.freq, Ms(a.m))
AeNext ==
  LET a == E(Task(Ev.p).app)
      offered == HSet(a.bs) \cup MSet(a.m)
  IN [s EXCEPT !.tasks[Ev.p] = Idle, !.pops[Ev.p] = Ev.m, !.hall = Ev.st.hall, !.best = Ev.st.best, !.bsp = Ev.st.bsp,
               !.freq = Ev.st.freq, !.cc = Ev.st.cc, !.cs = Ev.st.cs, !.ev = Ev.st.ev, !.done[Ev.p] = @ + 1,
               !.seen = s.seen \/ \E m \in offered : Feas(m, a.cur)]

ResultOk ==
  /\ s.init
  /\ P("C06") => /\ s.cc = Cfg.npops * Cfg.niter /\ s.cs = s.cc
                 /\ \A p \in Pops : s.done[p] = Cfg.niter /\ Task(p).ph = "idle"
  /\ P("C01") => Ev.hall = s.hall
  /\ P("C02") => HallEntriesOk(HallFn(Ev.hall), Cfg.maxsize, <<>>)
  /\ P("C05") => Ev.best = s.best
  /\ P("C03") => FrontOK(HallFn(Ev.hall), Ms(Ev.front))
ResultNext == [s EXCEPT !.fin = TRUE]

(* what is switched off does not happen: equations, shapes or constants stay within those of the first populations *)
First == [q \in 1..Len(Runs) |->
            LET ms == UNION {{Runs[q].mem[e[i]] : i \in 1..Len(e)} : e \in {Runs[q].ev[1].pops[p] : p \in 1..Len(Runs[q].ev[1].pops)}}
            IN CASE Runs[q].cfg.off = "all"   -> {m.se : m \in ms}
                 [] Runs[q].cfg.off = "shape" -> {m.sh : m \in ms}
                 [] Runs[q].cfg.off = "const" -> UNION {{m.cv[i] : i \in 1..Len(m.cv)} : m \in ms}
                 [] OTHER -> {}]
OffOk(m) == CASE Cfg.off = "all"   -> m.se \in First[r]
              [] Cfg.off = "shape" -> m.sh \in First[r]
              [] Cfg.off = "const" -> \A i \in 1..Len(m.cv) : m.cv[i] \in First[r]
              [] OTHER -> FALSE

(* judged on every event *)
AlwaysOk ==
  /\ P("C04") => \A m \in Mentioned(Ev) : m.lo /\ m.ko
  /\ P("C31") => \A m \in Mentioned(Ev) : OffOk(m)
  /\ P("C25") => \A m \in Mentioned(Ev) : ExprOk(m.x)
  /\ P("C12") => \A m \in Mentioned(Ev) : m.wf /\ m.cu

(* an identifier denotes one equation: judged once per run *)
IdsOk == P("C24") => LET ms == {Runs[r].mem[i] : i \in 1..Len(Runs[r].mem)}
                     IN Cardinality({<<m.id, m.e>> : m \in ms}) = Cardinality({m.id : m \in ms})
(* stepping reports the number of cycles it ran, and stops exactly at the end *)
StepsOk == P("C08") => \A i \in 1..Len(Runs[r].steps) :
    LET q == Runs[r].steps[i]
        total == Cfg.npops * Cfg.niter
    IN /\ q[2] = MinOf(q[1], total - q[3]) /\ q[4] = q[3] + q[2] /\ (q[5] = 1 <=> q[4] = total)
       /\ i > 1 => q[3] = Runs[r].steps[i - 1][4]

TraceInit == r \in 1..Len(Runs) /\ l = 1 /\ s = S0 /\ ok = (IdsOk /\ StepsOk)

Is(t) == l <= Len(Runs[r].ev) /\ Ev.t = t
Step(judged, next) == ok' = (judged /\ AlwaysOk) /\ s' = next /\ l' = l + 1 /\ UNCHANGED r

TraceNext ==
  \/ Is("init")   /\ Step(InitOk, InitNext)
  \/ Is("disp")   /\ Step(DispOk, DispNext)
  \/ Is("start")  /\ Step(StartOk, StartNext)
  \/ Is("end")    /\ Step(EndOk, EndNext)
  \/ Is("as")     /\ Step(AsOk, AsNext)
  \/ Is("ae")     /\ Step(AeOk, AeNext)
  \/ Is("result") /\ Step(ResultOk, ResultNext)
  \/ Is("panic")  /\ Step(FALSE, s)

(* the property *)
Holds == ok
(* every run is consumed to its end, and ends with a result *)
Consumed == (l > Len(Runs[r].ev)) => s.fin
(* no run is cut short by a disabled step: TLC's deadlock check is off, so count *)
ASSUME \A q \in 1..Len(Runs) : \A i \in 1..Len(Runs[q].ev) : Runs[q].ev[i].t \in {"init", "disp", "start", "end", "as", "ae", "result", "panic"}
Accepted == TLCGet("distinct") >= SumSeq([q \in 1..Len(Runs) |-> Len(Runs[q].ev) + 1])

Alias == [run |-> r, name |-> Cfg.name, event |-> l - 1, ok |-> ok,
          type |-> IF l > 1 THEN E(l - 1).t ELSE "start", pop |-> IF l > 1 /\ "p" \in DOMAIN E(l - 1) THEN E(l - 1).p ELSE 0]
=============================================================================
