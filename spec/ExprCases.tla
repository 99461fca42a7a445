------------------------------ MODULE ExprCases ------------------------------
(* Observations of the real expression code, one case per record, each judged *)
(* against ExprSem. The cases are split into chunks that TLC walks in parallel. *)
EXTENDS ExprSem, Json, IOUtils
CONSTANT PROP
Doc == JsonDeserialize(IOEnv.TRACE_FILE)
Cases == Doc.cases
OPS == Doc.ops            \* operator tables for printed equations, by operator-set name
NCH == 64

VARIABLES k, i, ok
vars == <<k, i, ok>>

Ints(s) == [j \in 1..Len(s) |-> s[j]]

(* ---- C13 ---- *)
J13(c) ==
  LET L == Limits(c.n, c.o)
      feas == L.wf /\ L.ok /\ L.cx <= c.cur
  IN c.accepted = feas /\ c.cx = L.cx /\ c.depth = L.depth

(* ---- C14 ---- *)
J14(c) ==
  LET inf == Info(c.n).inf
  IN CASE c.k = "int" ->
            \A r \in 1..Len(c.x) :
              LET v == EvalsInt(c.n, inf, c.c, c.x[r])[Len(c.n)]
              IN \A q \in 1..Len(c.out) : c.out[q][2] /\ c.out[q][3][r] = v
       [] c.k = "tab" ->
            LET f == TabFun(c.tab)
            IN \A r \in 1..Len(c.x) :
                 LET v == EvalsTab(c.n, inf, f, c.c, c.x[r])[Len(c.n)]
                 IN v >= 0 /\ (c.amb[r] \/ \A q \in 1..Len(c.out) : v \in Range(c.out[q][3][r]))
       [] c.k = "plan" -> PlanOK(c.n, c.plan)
       [] c.k = "hash" -> \A r \in 1..Len(c.x) :
            \A e \in 1..Len(c.seq) : c.seq[e].out[r] = EvalInt(c.seq[e].n, c.seq[e].c, c.x[r])

(* ---- C15 ---- *)
J15(c) ==
  LET inf == Info(c.n).inf
  IN CASE c.k = "int" ->
            \A d \in 1..Len(c.der) :
              LET D == c.der[d]      \* [mode, dir, obs: sequences of <<values, derivatives>>]
              IN \A r \in 1..Len(c.x) :
                   LET u == DualsInt(c.n, inf, c.c, c.x[r], D.mode, D.dir)[Len(c.n)]
                   IN u[3] => \A q \in 1..Len(D.obs) : D.obs[q][1][r] = u[1] /\ D.obs[q][2][r] = u[2]
       [] c.k = "terms" ->
            \A d \in 1..Len(c.der) :
              LET D == c.der[d]
              IN /\ D.terms = ChainTerms(c.n, inf, D.mode, D.dir)
                 /\ \A q \in 1..Len(D.obs) : \A r \in 1..Len(D.obs[q]) : D.obs[q][r]

(* ---- C16: c.n/c.c before, c.n2/c.c2 after; slots are numbered from zero ---- *)
J16(c) ==
  LET wf2 == WellFormed(c.n2)
  IN /\ wf2
     /\ Len(c.n2) <= Len(c.n)
     /\ \A s \in SlotsOf(c.n2) : s < c.nc2
     /\ c.full => SlotsOf(c.n2) = 0..(c.nc2 - 1)
     /\ ~c.same => c.changed
     /\ CASE c.k = "int" -> \A r \in 1..Len(c.x) : EvalInt(c.n2, c.c2, c.x[r]) = EvalInt(c.n, c.c, c.x[r])
          [] c.k = "flt" -> \A r \in 1..Len(c.rows) :
               LET q == c.rows[r] IN q.fin1 => (q.amb \/ (q.fin2 /\ q.close))

(* ---- C17 ---- *)
J17(c) ==
  LET inf == Info(c.n).inf
      f == TabFun(c.tab)
      vals == [r \in 1..Len(c.x) |-> EvalsTab(c.n, inf, f, c.c, c.x[r])]
      fin(r) == /\ \A j \in 1..Len(c.n) : IsOp(c.n[j]) => c.fin[vals[r][j]]
                /\ c.fin[vals[r][Len(c.n)]]
      allfin == \A r \in 1..Len(c.x) : fin(r)
      amb == \E r \in 1..Len(c.x) : c.amb[r]
      good(o) == \A r \in 1..Len(c.x) : c.amb[r] \/ vals[r][Len(c.n)] \in Range(o.out[r])
  IN \A q \in 1..Len(c.obs) :
       LET o == c.obs[q]     \* [cf, ee, ok, val, out, derfin]
       IN /\ ~o.cf => o.ok
          /\ o.cf /\ ~amb => /\ o.ok => allfin
                             /\ allfin => (o.ok \/ ~o.derfin)
          /\ (~o.cf \/ ~o.ee \/ o.ok) => good(o)

(* ---- C18 ---- *)
J18(c) == LET r == Parse(c.toks, c.vn, OPS[c.os]) IN r.ok /\ SameTree(r.n, c.n)

(* ---- C26: parts and result with constants as value identifiers ---- *)
J26(c) ==
  LET want == Append(FoldLeft(LAMBDA acc, p : acc \o Denote(p.n, p.c), <<>>, c.parts), <<2, Len(c.parts), c.op>>)
      named == SelectSeq(c.parts, LAMBDA p : p.names # <<>>)
  IN /\ WellFormed(c.res.n)
     /\ \A s \in SlotsOf(c.res.n) : s < Len(c.res.c)
     /\ Denote(c.res.n, c.res.c) = want
     /\ \A p \in 1..Len(c.parts) : \A v \in Range(c.parts[p].c) :
          Cardinality({j \in 1..Len(c.res.c) : c.res.c[j] = v}) >= 1
     /\ c.res.names = IF named = <<>> THEN <<>> ELSE named[1].names
     /\ c.val => \A r \in 1..Len(c.x) :
          c.out[r] = IntOp(c.op, [p \in 1..Len(c.parts) |-> EvalInt(c.parts[p].n, c.parts[p].iv, c.x[r])])

Judge(c) == CASE PROP = "C13" -> J13(c) [] PROP = "C14" -> J14(c) [] PROP = "C15" -> J15(c)
              [] PROP = "C16" -> J16(c) [] PROP = "C17" -> J17(c) [] PROP = "C18" -> J18(c)
              [] PROP = "C26" -> J26(c)

TraceInit == k \in 0..(NCH - 1) /\ i = 0 /\ ok = TRUE
TraceNext == /\ k + i * NCH + 1 <= Len(Cases)
             /\ i' = i + 1 /\ k' = k
             /\ ok' = Judge(Cases[k + i * NCH + 1])
Holds == ok
Alias == [k |-> k, i |-> i, ok |-> ok, bad |-> IF ok \/ i = 0 THEN <<>> ELSE Cases[k + (i - 1) * NCH + 1]]
=============================================================================
