------------------------------ MODULE SearchDefs ------------------------------
(* Transition relations of the search orchestrator on members, the hall of     *)
(* fame, the best, the size statistics and migration. Shared by the design     *)
(* model (Search.tla) and by the validation of recorded runs (SearchTrace.tla).*)
(* A member is a record with fields id, pa, b(irth), c(omplexity), l(oss),     *)
(* k (cost), e (content). Losses and costs are dense ranks; INF is infinity    *)
(* and -1 is NaN (worse than everything).                                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

INF == 1000000000
Val(v) == IF v = -1 THEN INF + 1 ELSE v
Cost(m) == Val(m.k)
Loss(m) == Val(m.l)
Set(s) == {s[i] : i \in 1..Len(s)}
MinOf(a, b) == IF a < b THEN a ELSE b
MinSet(S) == CHOOSE v \in S : \A w \in S : v <= w
MaxSet(S) == CHOOSE v \in S : \A w \in S : v >= w

(* ---- hall of fame: a function from filled complexities to members ---- *)
Eligible(offered, lim, Feas(_, _)) == {m \in offered : m.c >= 1 /\ Feas(m, lim)}

HallOK(h, h2, offered, lim, Feas(_, _)) ==
  LET el == Eligible(offered, lim, Feas)
  IN /\ DOMAIN h2 = DOMAIN h \cup {m.c : m \in el}
     /\ \A c \in DOMAIN h2 :
          LET all == {m \in el : m.c = c} \cup (IF c \in DOMAIN h THEN {h[c]} ELSE {})
          IN /\ h2[c] \in all
             /\ \A m \in all : Cost(h2[c]) <= Cost(m)
             /\ (c \in DOMAIN h /\ h2[c] # h[c]) => Cost(h2[c]) < Cost(h[c])

(* one deterministic implementation of HallOK: consider the members in order *)
Consider(h, m, lim, Feas(_, _)) ==
  IF m.c < 1 \/ ~Feas(m, lim) THEN h
  ELSE IF m.c \notin DOMAIN h \/ Cost(m) < Cost(h[m.c]) THEN [c \in DOMAIN h \cup {m.c} |-> IF c = m.c THEN m ELSE h[c]]
  ELSE h
HallAfter(h, ms, lim, Feas(_, _)) == FoldLeft(LAMBDA a, m : Consider(a, m, lim, Feas), h, ms)

(* ---- Pareto front ---- *)
NonDominated(h) == {c \in DOMAIN h : Loss(h[c]) < INF /\ \A d \in DOMAIN h : d < c => Loss(h[c]) < Loss(h[d])}
FrontOK(h, front) ==
  /\ Len(front) = Cardinality(NonDominated(h))
  /\ \A i \in 1..Len(front) : front[i].c \in NonDominated(h) /\ h[front[i].c] = front[i]
  /\ \A i \in 1..Len(front) : i > 1 => front[i - 1].c < front[i].c
FrontOf(h) == LET S == NonDominated(h) IN [i \in 1..Cardinality(S) |-> h[CHOOSE c \in S : Cardinality({d \in S : d < c}) = i - 1]]

(* ---- overall best ---- *)
BestOK(b, b2, offered, lim, maxsize, Feas(_, _)) ==
  LET el == {m \in offered : Feas(m, lim)}
  IN /\ b2 \in el \cup {b}
     /\ \A m \in el : Loss(b2) <= Loss(m)
     /\ Feas(b, maxsize) => Loss(b2) <= Loss(b)
BestAfter(b, ms, lim, maxsize, Feas(_, _)) ==
  FoldLeft(LAMBDA a, m : IF Feas(m, lim) /\ (Loss(m) < Loss(a) \/ ~Feas(a, maxsize)) THEN m ELSE a, b, ms)

(* ---- published members: the topn of lowest cost ---- *)
BestSubPopOK(pop, bsp, topn) ==
  /\ Len(bsp) = MinOf(topn, Len(pop))
  /\ \A m \in Set(bsp) : Cardinality({i \in 1..Len(bsp) : bsp[i] = m}) <= Cardinality({i \in 1..Len(pop) : pop[i] = m})
  /\ \A i \in 1..Len(pop) : (\A j \in 1..Len(bsp) : bsp[j] # pop[i]) => \A m \in Set(bsp) : Cost(m) <= Cost(pop[i])

(* ---- migration: pre/post population, migrants that may be copied ---- *)
IsCopy(n, src) == n.e = src.e /\ n.l = src.l /\ n.k = src.k /\ n.c = src.c /\ n.pa = src.id
MigrationOK(pre, post, migrants, id0, id1, b0, b1) ==
  /\ Len(post) = Len(pre)
  /\ \A i \in 1..Len(pre) :
       \/ post[i] = pre[i]
       \/ /\ \E s \in migrants : IsCopy(post[i], s)
          /\ post[i].id >= id0 /\ post[i].id < id1
          /\ post[i].b >= b0 /\ post[i].b < b1
  /\ LET ch == {i \in 1..Len(pre) : post[i] # pre[i]}
     IN \A i, j \in ch : i # j => post[i].id # post[j].id /\ post[i].b # post[j].b

(* ---- size limit of a cycle; warm in 1/10000 of the search, f32 rounding at boundaries ---- *)
WarmupSizes(maxsize, elapsed, total, warm) ==
  LET lo == MinOf(maxsize, 3)
      num == (maxsize - lo) * elapsed * 10000
      den == total * warm
      q == num \div den
      r == num % den
      e == elapsed * 10000
  IN IF warm = 0 \/ e > den THEN {maxsize}
     ELSE {lo + q} \cup (IF r = 0 /\ q > 0 THEN {lo + q - 1} ELSE {})
                   \cup (IF den - r <= den \div 100000 THEN {lo + q + 1} ELSE {})
                   \cup (IF e = den THEN {maxsize} ELSE {})

(* ---- size statistics below the window ---- *)
CountAt(ms, c) == Cardinality({i \in 1..Len(ms) : ms[i].c = c})
FreqAfter(f, ms) == [c \in 1..Len(f) |-> f[c] + CountAt(ms, c)]
=============================================================================
