----------------------------- MODULE DataCases -----------------------------
(* Recorded calls of the parts around the search loop, judged against         *)
(* DataDefs and SearchDefs.                                                    *)
EXTENDS DataDefs, Expr, Json, IOUtils, TLC
CONSTANT PROP
Doc == JsonDeserialize(IOEnv.TRACE_FILE)
Cases == Doc.cases
NCH == 64
VARIABLES k, i, ok
vars == <<k, i, ok>>

(* ---- C29 ---- *)
Near(p, v, tol) == p[2] /\ Abs(p[1] - v) <= tol
J29(c) ==
  LET n == Len(c.d)
      W == Sum(LAMBDA q : c.w[q], n)
      lc == c.kind = "logcosh"
      N == IF lc THEN Sum(LAMBDA q : c.w[q] * c.tab[q], n) ELSE Total(c.kind, c.a, c.d, c.w)
      tol == IF lc THEN W + (IF c.f32 THEN 20 + N \div 10000 ELSE 0) ELSE 0
  IN /\ Near(c.v, N, tol)
     /\ ~c.neg /\ c.acc
     /\ (\A q \in 1..n : c.w[q] = 0 \/ c.d[q] = 0) => c.zero
     /\ c.eq
     /\ \A q \in 1..n :
          IF lc THEN Near(c.g[q], c.w[q] * c.gtab[q], W + (IF c.f32 THEN 20 ELSE 0))
          ELSE LET s == Slope(c.kind, c.a, c.d[q])
               IN /\ (c.kind \notin {"mae", "quantile", "eps", "lp"} \/ s[1] = s[2]) => c.g[q][2]
                  /\ c.w[q] * s[1] <= c.g[q][1] /\ c.g[q][1] <= c.w[q] * s[2]
     /\ (c.kind = "rmse" /\ c.zero) => c.gz

(* ---- C22 ---- *)
Round22(c, q) ==
  /\ q.same /\ q.rows = c.bs /\ q.xd = <<c.nf, c.bs>> /\ q.nf = c.nf
  /\ q.wl = IF c.wt THEN c.bs ELSE -1
  /\ Len(q.cols) = c.bs
  /\ \A j \in 1..Len(q.cols) : IsRow(q.cols[j], q.base, q.n, c.nf, c.wt)
RowOf(v) == v \div 1000
Call22(c, q) ==
  LET L == Len(q.y)
      row(j) == RowOf(q.y[j])
  IN /\ L \in {c.n, c.bs} /\ Len(q.h) = L
     /\ \A j \in 1..L : q.y[j] = row(j) * 1000 + 900 /\ row(j) >= 0 /\ row(j) < c.n
     /\ c.bs # c.n /\ L = c.n => \A j \in 1..L : row(j) = j - 1 \* the full data
     /\ q.hw => (c.wt /\ Len(q.w) = L /\ \A j \in 1..L : q.w[j] = row(j) * 1000 + 901)
     /\ ~q.hw => ~c.wt
     (* predictions: one constant, or the same input on every row *)
     /\ \/ L = 1
        \/ \A j \in 1..L : q.h[j] = -2
        \/ \E f \in 0..1 : \A j \in 1..L : q.h[j] = row(j) * 1000 + f
J22(c) ==
  CASE c.t = "batch" -> \A q \in 1..Len(c.rounds) : Round22(c, c.rounds[q])
    [] c.t = "reach" -> \A p \in 1..c.bs : \A row \in 1..c.n : c.hits[p][row] > 0
    [] c.t = "bsearch" ->
         /\ c.panic = "" /\ c.same /\ c.cycles = 12 /\ c.total > 0
         /\ \A q \in 1..Len(c.calls) : Call22(c, c.calls[q])
         (* the batch changes during the search *)
         /\ (c.pops = 1 /\ c.n >= 5 /\ c.bs >= 4 /\ c.bs # c.n) => Cardinality({c.calls[q].y : q \in {p \in 1..Len(c.calls) : Len(c.calls[p].y) = c.bs}}) >= 5

(* ---- C25 ---- *)
Reqs(c) == IF c.plain THEN [j \in 1..Len(c.toks[1]) |-> <<c.toks[1][j], 0>>]
           ELSE LET row(a) == [j \in 1..Len(c.toks[a]) |-> <<c.toks[a][j], a>>] IN row(1) \o row(2) \o row(3)
J25(c) ==
  IF c.t = "built" THEN c.got = c.want
  ELSE
  LET lib == Doc.libs[c.lib]
      reqs == Reqs(c)
      acc == Acceptable(lib, reqs, c.D)
      picked == Selection(lib, reqs)
  IN /\ c.ok = acc
     /\ acc => /\ Len(c.sel) = c.D
               /\ \A a \in 1..c.D : /\ Set(c.sel[a]) = {o \in picked : o[1] = a}
                                    /\ Len(c.sel[a]) = Cardinality(Set(c.sel[a]))
                                    /\ c.nops[a] = Len(c.sel[a])
               /\ Set(c.drawn) = picked
               /\ \A cap \in 1..(c.D + 1) :
                    {p[2] : p \in {x \in Set(c.ar) : x[1] = cap}} = {o[1] : o \in {x \in picked : x[1] <= cap}}

(* ---- C20 ---- *)
(* a whole search, in thousandths: what stands in the table changes when a cycle is applied, by its counts and the window *)
Long(c) ==
  LET W == 100000
      before(q) == IF q = 1 THEN [j \in 1..c.k |-> 1000] ELSE [j \in 1..c.k |-> c.steps[q - 1].f[j]]
  IN \A q \in 1..Len(c.steps) :
       LET s == c.steps[q]
           f0 == before(q)
           f1 == [j \in 1..c.k |-> f0[j] + 1000 * s.h[j]]
           over == SumS(f1) - 1000 * W
       IN  /\ Len(s.f) = c.k /\ s.nd <= 10
           /\ IF ~s.apply THEN \A j \in 1..c.k : s.f[j] = f0[j]
              ELSE IF over <= -c.k THEN \A j \in 1..c.k : s.f[j] = f1[j]
              ELSE /\ \A j \in 1..c.k : s.f[j] <= f1[j] + 1 /\ s.f[j] >= 999
                   /\ \A a, b \in 1..c.k : f1[a] <= f1[b] => s.f[a] <= s.f[b] + 2
                   /\ Abs(SumS(s.f) - (IF over < 0 THEN SumS(f1) ELSE 1000 * W)) <= c.k + 1
J20(c) ==
  IF c.t = "long" THEN Long(c) ELSE
  /\ c.init = [j \in 1..c.k |-> M1]
  /\ \A q \in 1..Len(c.steps) : LET s == c.steps[q] IN
       /\ s.fin /\ Counted(s.f0, s.f1, s.sizes) /\ Windowed(s.f1, s.f2, c.win)
       /\ s.same /\ Normalised(s.f2, s.nf) /\ s.nd <= 10   \* nd: largest deviation in 1e-12 of the sum
       /\ q > 1 => s.f0 = c.steps[q - 1].f2

(* ---- C09 ---- *)
J09(c) ==
  /\ \A e \in 1..c.total : c.out[e] \in WarmupSizes(c.max, e - 1, c.total, c.warm) /\ c.out[e] <= c.max
  /\ \A e \in 2..c.total : c.out[e] >= c.out[e - 1]

(* ---- C01, C03 ---- *)
HallOf(pairs) == [cx \in {pairs[j][1] : j \in 1..Len(pairs)} |-> pairs[CHOOSE j \in 1..Len(pairs) : pairs[j][1] = cx][2]]
J03(c) ==
  /\ FrontOK(HallOf(c.hall), c.front)
  /\ Set(c.listed) = {c.hall[j][2] : j \in 1..Len(c.hall)} /\ Len(c.listed) = Len(c.hall)
Small(m, lim) == m.x <= lim /\ m.x <= 3
Offers(c) == \A q \in 1..Len(c.steps) :
  LET s == c.steps[q]
      h == IF q = 1 THEN <<>> ELSE HallOf(c.steps[q - 1].h)
  IN HallOK(h, HallOf(s.h), Set(s.ms), s.lim, Small)
Cover(c) ==
  LET Mm(j) == c.mem[j]
      L == [x \in 1..Len(c.exprs) |-> Limits(c.exprs[x], c.cfg)]
      feas(m) == L[m.x].wf /\ L[m.x].ok /\ L[m.x].cx <= c.cur
      offered == UNION {{Mm(c.pops[q][j]) : j \in 1..Len(c.pops[q])} : q \in 1..Len(c.pops)}
      bs == [cx \in {c.bs[j][1] : j \in 1..Len(c.bs)} |-> Mm(c.bs[CHOOSE j \in 1..Len(c.bs) : c.bs[j][1] = cx][2])]
  IN /\ \A m \in offered : (m.c >= 1 /\ feas(m)) => /\ m.c \in DOMAIN bs
                                                     /\ ~c.cfg.batch => Cost(bs[m.c]) <= Cost(m)
     /\ \A cx \in DOMAIN bs : /\ bs[cx].c = cx /\ feas(bs[cx])
                              /\ c.all => \E m \in offered : feas(m) /\ m.c = cx /\ m.e = bs[cx].e /\ (~c.cfg.batch => m = bs[cx])
J01(c) == IF c.t = "offers" THEN Offers(c) ELSE Cover(c)

(* ---- C11 ---- *)
(* Poisson chances of a mean num/den, in units of 1e-8, from the chance of the mode *)
Mode(num, den) == num \div den
ModeChance == (<<1, 4>> :> 77880078) @@ (<<1, 2>> :> 60653066) @@ (<<1, 1>> :> 36787944) @@ (<<3, 1>> :> 22404181)
           @@ (<<9, 1>> :> 13175564) @@ (<<12, 1>> :> 11436792) @@ (<<25, 1>> :> 7952295) @@ (<<40, 1>> :> 6294704) @@ (<<70, 1>> :> 4762599)
Poisson(num, den) ==
  LET m == IF num < den THEN 0 ELSE Mode(num, den)
      p == ModeChance[<<num, den>>]
      up(acc, j) == Append(acc, (acc[Len(acc)] * num) \div (den * (m + j)))
      down(acc, j) == Append(acc, (acc[Len(acc)] * (m + 1 - j) * den) \div num)
  IN  Reverse(Tail(FoldLeft(down, <<p>>, [j \in 1..m |-> j]))) \o FoldLeft(up, <<p>>, [j \in 1..70 |-> j])
PSum(s, from) == FoldLeft(LAMBDA a, b : a + b, 0, SubSeq(s, from, Len(s)))
ASSUME \A q \in DOMAIN ModeChance : PSum(Poisson(q[1], q[2]), 1) \in 99999000..100001000
Within(h, e) == LET d == Abs(h - e) IN d < 40000 /\ d * d <= 40 * (e + 4)       \* six standard deviations
(* copies made in 40000 migrations: Poisson, cut at the population and the number of migrants; slots and donors uniform *)
Many(c) == LET pt == Poisson(c.num, c.den)  cap == c.cap
               E(v) == (IF v < cap THEN pt[v + 1] ELSE PSum(pt, cap + 1)) \div 2500
               hits == PSum(c.hit, 1)  srcs == PSum(c.src, 1)
           IN  /\ c.n = 40000 /\ Len(c.hist) = cap + 1
               /\ \A v \in 0..cap : Within(c.hist[v + 1], IF v + 1 > Len(pt) THEN 0 ELSE E(v))
               /\ \A j \in 1..Len(c.hit) : Within(c.hit[j], hits \div Len(c.hit))
               /\ \A j \in 1..Len(c.src) : Within(c.src[j], srcs \div Len(c.src))
J11(c) ==
  IF c.t = "many" THEN Many(c) ELSE
  IF c.t = "rate" THEN (\A j \in 1..Len(c.hit) : c.hit[j] > 0) /\ (\A j \in 1..Len(c.src) : c.src[j] > 0)
  ELSE /\ MigrationOK(c.pre, c.post, IF c.zero THEN {} ELSE Set(c.don), c.nid[1], c.nid[2], c.nb[1], c.nb[2])
       /\ BestSubPopOK(c.pre, c.bsp, c.topn)

Judge(c) ==
  CASE PROP = "C29" -> J29(c) [] PROP = "C22" -> J22(c) [] PROP = "C25" -> J25(c) [] PROP = "C20" -> J20(c)
    [] PROP = "C09" -> J09(c) [] PROP = "C03" -> J03(c) [] PROP = "C01" -> J01(c) [] PROP = "C11" -> J11(c)

(* the enumerated families are complete *)
ASSUME PROP = "C03" => Cardinality({Cases[j].f : j \in {q \in 1..Len(Cases) : Len(Cases[q].f) = 5}}) = Pow(6, 5)
ASSUME PROP = "C01" => Cardinality({Cases[j].seq : j \in {q \in 1..Len(Cases) : Cases[q].t = "offers" /\ Len(Cases[q].seq) = 3}}) = Pow(9, 3)

TraceInit == k \in 1..NCH /\ i = 0 /\ ok = TRUE
TraceNext == /\ ok /\ k + i * NCH <= Len(Cases)
             /\ i' = i + 1 /\ k' = k
             /\ ok' = Judge(Cases[k + i * NCH])
Holds == ok
Alias == [k |-> k, i |-> i, ok |-> ok, bad |-> IF ~ok THEN Cases[k + (i - 1) * NCH] ELSE <<>>]
=============================================================================
