---------------------------- MODULE EvolveCases ----------------------------
(* Recorded evolution events of the real code, judged against EvolveDefs.    *)
EXTENDS EvolveDefs, Json, IOUtils
CONSTANT PROP
Doc == JsonDeserialize(IOEnv.TRACE_FILE)
Cases == Doc.cases
NCH == 64
VARIABLES k, i, ok
vars == <<k, i, ok>>

(* an expression record x has x.n (nodes over slots) and x.c (value identifiers of the slots) *)
Tree(x) == [j \in Idx(x.n) |-> IF x.n[j][1] = 1 THEN <<1, x.c[x.n[j][2] + 1], 0>> ELSE x.n[j]]
Slots(x) == {x.n[j][2] : j \in {q \in Idx(x.n) : x.n[q][1] = 1}}
Sound(x) == WellFormed(x.n) /\ Slots(x) = 0..(Len(x.c) - 1)
SameScore(a, b) == a.l = b.l /\ a.k = b.k /\ a.cx = b.cx
Ops(c) == {<<o[1], o[2]>> : o \in ToSet(c.ops)}
Offspring(x, c) ==   \* a well-formed, feasible expression with a truthful score
  /\ Sound(x) /\ SelectedOnly(x.n, Ops(c), c.nf)
  /\ LET L == Limits(x.n, c.o) IN L.wf /\ L.ok /\ L.cx <= c.cur /\ x.cx = L.cx

(* ---- C10 ---- *)
Newcomers(c) == {m \in ToSet(c.post) : m.id >= c.nid}
CopyOfSome(m, pre) == \E q \in ToSet(pre) : m.e = q.e /\ m.l = q.l /\ m.k = q.k /\ m.cx = q.cx
ById(s, id) == CHOOSE m \in ToSet(s) : m.id = id
Ev10(c) ==
  CASE c.out = "rej" /\ c.skip -> SameBag(c.pre, c.post)
    [] c.out = "rej" /\ ~c.skip /\ c.ev = "mut" ->
         \E x \in ToSet(c.post) : ReplacesOldest(c.pre, c.post, x) /\ CopyOfSome(x, c.pre)
    [] c.out = "rej" /\ ~c.skip /\ c.ev = "cross" ->
         \E x, y \in ToSet(c.post) : ReplacesTwoOldest(c.pre, c.post, x, y) /\ CopyOfSome(x, c.pre) /\ CopyOfSome(y, c.pre)
    [] c.out = "acc" /\ c.ev = "mut" ->
         /\ Cardinality(Newcomers(c)) = 1
         /\ \A x \in Newcomers(c) :
              /\ ReplacesOldest(c.pre, c.post, x) /\ Fresh(x, c.pre, c.nid, c.nid2, c.nb, c.nb2)
              /\ LET q == ById(c.pre, x.pa) IN x.e = q.e /\ x.l = q.l /\ x.k = q.k /\ x.cx = q.cx
    [] c.out = "acc" /\ c.ev = "cross" ->
         /\ Cardinality(Newcomers(c)) = 2
         /\ \A x \in Newcomers(c) : \A y \in Newcomers(c) \ {x} :
              /\ ReplacesTwoOldest(c.pre, c.post, x, y) /\ Fresh(x, c.pre, c.nid, c.nid2, c.nb, c.nb2)
              /\ x.b # y.b
              /\ IsCrossing(Tree(ById(c.pre, x.pa)), Tree(ById(c.pre, y.pa)), Tree(x), Tree(y))
Multi10(c) ==
  LET K == CeilDiv(Len(c.pre), c.tn)
      new == Newcomers(c)
      most == IF c.ev = "mut" THEN K ELSE 2 * K
      gone == ToSet(c.pre) \ ToSet(c.post)
      kept == ToSet(c.pre) \cap ToSet(c.post)
  IN /\ Len(c.post) = Len(c.pre)
     /\ Cardinality(ToSet(c.post)) = Len(c.post)
     /\ ToSet(c.post) = kept \cup new
     /\ Cardinality(new) <= most
     /\ c.must => Cardinality(new) = (IF most < Len(c.pre) THEN most ELSE Len(c.pre))
     /\ \A a \in kept : \A g \in gone : a.b > g.b
     /\ \A x \in new : /\ x.id < c.nid2 /\ x.b >= c.nb /\ x.b < c.nb2
                       /\ (x.pa \in {q.id : q \in ToSet(c.pre)} \/ (x.pa >= c.nid /\ x.pa < x.id))
                       /\ \A y \in new : x = y \/ (x.id # y.id /\ x.b # y.b)
J10(c) == IF c.t = "ev" THEN Ev10(c) ELSE Multi10(c)

(* ---- C12 ---- *)
Possible(kind, c, t) ==
  LET has(z) == \E j \in Idx(t) : t[j][1] = z
  IN CASE kind = "mutate_constant" -> has(1)
       [] kind \in {"mutate_operator", "delete_node"} -> has(2)
       [] kind = "mutate_feature" -> c.nf > 1 /\ has(0)
       [] kind = "swap_operands" -> \E j \in Idx(t) : t[j][1] = 2 /\ t[j][2] = 2
       [] kind = "rotate_tree" -> Rotated(t, Info(t).inf) # {}
       [] kind \in {"add_node", "insert_node"} -> c.p.cx < c.cur
       [] OTHER -> TRUE
Mut12(c) ==
  LET t == Tree(c.p)
      u == Tree(c.q)
  IN IF c.acc
     THEN /\ Offspring(c.q, c)
          /\ IF Possible(c.kind, c, t) THEN Variation(c.kind, t, u, Ops(c)) ELSE u = t
          /\ c.kind # "simplify" => c.true
          /\ c.fresh
     ELSE u = t /\ SameScore(c.p, c.q) /\ ~c.must
Cross12(c) ==
  LET t1 == Tree(c.p) t2 == Tree(c.p2) u1 == Tree(c.q) u2 == Tree(c.q2)
  IN IF c.acc
     THEN Offspring(c.q, c) /\ Offspring(c.q2, c) /\ IsCrossing(t1, t2, u1, u2) /\ c.true /\ c.fresh
     ELSE u1 = t1 /\ u2 = t2 /\ SameScore(c.p, c.q) /\ SameScore(c.p2, c.q2) /\ ~c.must
J12(c) ==
  CASE c.t = "mut" -> Mut12(c)
    [] c.t = "cross" -> Cross12(c)
    [] c.t = "reach" -> ToSet(c.seen) = Outcomes(c.kind, c.tree, Ops(c), c.nf)
    [] c.t = "reachx" -> ToSet(c.seen) = Crossings(c.tree, c.tree2)

(* ---- C19 ---- *)
J19(c) ==
  CASE c.t = "opt" ->
         /\ c.q.n = c.p.n /\ Len(c.q.c) = Len(c.p.c) /\ c.q.cx = c.p.cx /\ c.q.id = c.p.id /\ c.q.pa = c.p.pa
         /\ c.improved = (c.q.l < c.p.l)
         /\ c.improved => c.true /\ c.q.b >= c.nb /\ c.q.b < c.nb2
         /\ ~c.improved => c.q = c.p
         /\ c.off => ~c.improved
    [] c.t = "phase" -> \A j \in Idx(c.m) :
         LET m == c.m[j]
         IN /\ m.notworse /\ m.true
            /\ IF m.same THEN m.b2 = m.b /\ (m.id2 = m.id \/ m.id2 >= c.nid)
               ELSE m.id2 >= c.nid /\ m.id2 < c.nid2 /\ \A h \in Idx(c.m) : h # j => c.m[h].id2 # m.id2

(* ---- C21 ---- *)
J21(c) ==
  LET N == Len(c.rank)
      n == IF c.n < N THEN c.n ELSE N
      less(j) == Cardinality({h \in 1..N : c.rank[h] < c.rank[j]})
      more(j) == Cardinality({h \in 1..N : c.rank[h] > c.rank[j]})
      tied == \E j \in 1..N : less(j) + more(j) # N - 1
      same(j) == {h \in 1..N : c.rank[h] = c.rank[j]}
      wins(j) == SumSeq([h \in 1..N |-> IF c.rank[h] = c.rank[j] THEN c.wins[h] ELSE 0])
  IN /\ c.intact
     /\ SumSeq(c.wins) = c.trials
     /\ \A j \in 1..N :
          IF ~tied THEN Plausible(c.wins[j], c.trials, WinNum(N, n, less(j), more(j), c.base), WinDen(N, n, c.base))
          ELSE \* the whole tie group wins as often as any order of it would
               LET L == less(j) g == Cardinality(same(j))
                   num == SumSeq([h \in 1..g |-> WinNum(N, n, L + h - 1, N - L - h, c.base)])
               IN Plausible(wins(j), c.trials, num, WinDen(N, n, c.base))

(* ---- C28 ---- *)
RECURSIVE SchedNum(_, _, _), SchedDen(_, _, _)
(* chance of n-cycle runs rejecting at every cycle: temperature falls linearly from 1 to 0 *)
SchedNum(n, s, j) == IF j >= n \/ (n > 1 /\ j = n - 1) THEN 1
                     ELSE (Pow2(IF n = 1 THEN s ELSE (s * (n - 1)) \div (n - 1 - j)) - 1) * SchedNum(n, s, j + 1)
SchedDen(n, s, j) == IF j >= n \/ (n > 1 /\ j = n - 1) THEN 1
                     ELSE Pow2(IF n = 1 THEN s ELSE (s * (n - 1)) \div (n - 1 - j)) * SchedDen(n, s, j + 1)
J28(c) ==
  CASE c.t = "acc" ->
         LET a == AcceptNum(c.anneal, c.steps, c.usefreq, c.fo, c.fn)
             b == AcceptDen(c.anneal, c.steps, c.usefreq, c.fo, c.fn)
         IN Plausible(c.obs, c.trials, a, b) /\ c.honest
    [] c.t = "never" -> c.obs = 0 /\ c.honest
    [] c.t = "always" -> c.obs = c.trials /\ c.honest
    [] c.t = "own" -> \A q \in Idx(c.evs) : IF c.evs[q].acc THEN c.evs[q].own ELSE c.evs[q].kept
    [] c.t = "sched" -> Plausible(c.obs, c.trials, SchedNum(c.n, c.steps, 0), SchedDen(c.n, c.steps, 0))

(* ---- C31 ---- *)
OpNodes(t) == {j \in Idx(t) : t[j][1] = 2}
(* weight of a kind for a parent, in eighths: zero where the kind does not apply or is switched off *)
Weight31(kind, c) ==
  LET t == c.tree
      leaf == OpNodes(t) = {}
      consts == Cardinality({j \in Idx(t) : t[j][1] = 1})
      off == IF leaf THEN \/ kind \in {"mutate_operator", "swap_operands", "delete_node", "simplify"}
                          \/ kind \in {"mutate_constant", "optimize"} /\ consts = 0
                          \/ kind = "mutate_feature" /\ consts > 0
                          \/ kind = "optimize" /\ ~c.optimize
             ELSE \/ kind = "swap_operands" /\ \A j \in OpNodes(t) : t[j][2] # 2
                  \/ kind = "mutate_feature" /\ c.nf <= 1
                  \/ kind \in {"add_node", "insert_node"} /\ c.cx >= c.cur
                  \/ kind = "simplify" /\ ~c.simplify
                  \/ kind = "optimize" /\ (consts = 0 \/ ~c.optimize)
      eighths == IF kind = "mutate_constant" /\ ~leaf THEN IF consts < 8 THEN consts ELSE 8 ELSE 8
  IN IF off THEN 0 ELSE c.w[kind] * eighths
Possible31(kind, c) ==
  LET t == c.tree
      has(z) == \E j \in Idx(t) : t[j][1] = z
  IN CASE kind = "mutate_feature" -> has(0)
       [] kind = "rotate_tree" -> Rotated(t, Info(t).inf) # {}
       [] OTHER -> TRUE
Kinds31(c) ==
  LET t == c.tree
      act == {x \in DOMAIN c.w : Weight31(x, c) > 0}
      can == {x \in act : Possible31(x, c)}
      all == SumSeq([q \in 1..Cardinality(act) |-> Weight31(SetToSeq(act)[q], c)])
      by(u) == {x \in act : \/ x \notin can /\ u = t
                            \/ x \in can /\ CASE x = "simplify" -> u = c.simp
                                                [] x = "mutate_constant" -> u # t /\ Variation(x, t, u, Ops(c))
                                                [] x = "randomize" -> \A j \in Idx(u) : u[j][1] = 1 => u[j][2] = 0
                                                [] OTHER -> Variation(x, t, u, Ops(c))}
      why == [q \in Idx(c.seen) |-> by(c.seen[q].u)]
      whyrej == {x \in act : x \notin can \/ x = "randomize"}
      count(P(_)) == SumSeq([q \in Idx(c.seen) |-> IF P(why[q]) THEN c.seen[q].n ELSE 0]) + (IF P(whyrej) THEN c.rej ELSE 0)
  IN /\ \A q \in Idx(c.seen) : why[q] # {}
     /\ c.rej > 0 => whyrej # {}
     /\ \A x \in act : LET sure == count(LAMBDA S : S = {x})
                           may == count(LAMBDA S : x \in S)
                       IN \E obs \in {sure, may, (c.trials * Weight31(x, c)) \div all} :
                            sure <= obs /\ obs <= may /\ Plausible(obs, c.trials, Weight31(x, c), all)
(* a fresh equation: every size up to the limit, a constant or a variable, every variable: equally likely *)
Fresh31(c) ==
  /\ \A s \in Idx(c.size) : IF s - 1 \in 1..c.cur THEN Plausible(c.size[s], c.trials, 1, c.cur) ELSE c.size[s] = 0
  /\ Plausible(c.consts, c.leaves, 1, 2)
  /\ \A f \in Idx(c.feats) : Plausible(c.feats[f], c.leaves - c.consts, 1, Len(c.feats))
J31(c) ==
  CASE c.t = "kinds" -> Kinds31(c)
    [] c.t = "fresh" -> Fresh31(c)
    [] c.t = "often" -> Plausible(c.obs, c.trials, c.num, c.den)
    [] c.t = "off"   -> \A j \in Idx(c.same) : c.same[j]
    [] c.t = "scale" -> /\ c.outside = 0 /\ Plausible(c.kept, c.trials, c.num, c.den)
                        /\ Plausible(c.grew, c.trials, 1, 2) /\ Plausible(c.inner, c.trials, 1, 2)

(* ---- C33: the evaluation count against how often the loss was asked ---- *)
(* without constant optimisation every evaluation is counted, and nothing else; with it, never more than happened *)
J33(c) ==
  LET first == c.seen[1]
      last == c.seen[Len(c.seen)]
  IN /\ first[1] = c.npops * c.popsize /\ first[2] - first[1] \in 0..1
     /\ \A j \in 2..Len(c.seen) : c.seen[j][1] >= c.seen[j - 1][1]
     /\ \A j \in Idx(c.seen) : c.seen[j][1] <= c.seen[j][2]
     /\ last[1] >= first[1] + c.npops * c.niter * c.popsize
     /\ ~c.opt => last[1] - first[1] = last[2] - first[2]
(* ---- C34: the first populations ---- *)
Cand34(t, c) ==
  LET nops == Cardinality({j \in Idx(t) : t[j][1] = 2})
  IN /\ WellFormed(t) /\ SelectedOnly(t, Ops(c), c.nf) /\ Len(t) <= c.cur /\ nops <= 3
     (* three operators, fewer only where no selected operator fits any more *)
     /\ nops < 3 => \A o \in ToSet(c.ops) : Len(t) + o[1] > c.cur
J34(c) ==
  /\ c.popsok /\ c.total = c.expect
  /\ \A j \in Idx(c.trees) : Cand34(c.trees[j], c)
  /\ (\E o \in ToSet(c.ops) : o[1] < c.cur) =>
        /\ Plausible(c.pos, c.consts, 1, 2)
        (* standard normal constants: half within the quartiles, the tails beyond one and two deviations *)
        /\ Plausible(c.bands[1], c.consts, 1, 2)
        /\ \A j \in 2..3 : Plausible(c.bands[j], c.consts, 1587, 10000)
        /\ Plausible(c.bands[4], c.consts, 455, 10000)
  /\ c.cur >= 10 => /\ Plausible(c.consts, c.leaves, 1, 2)
                    /\ \A o \in Idx(c.opn) : Plausible(c.opn[o], 3 * c.total, 1, Len(c.opn))
                    /\ \A f \in Idx(c.feats) : Plausible(c.feats[f], c.leaves - c.consts, 1, Len(c.feats))
  /\ ~c.small => c.alike = 0

Judge(c) == CASE PROP = "C33" -> J33(c) [] PROP = "C34" -> J34(c) [] PROP = "C31" -> J31(c) [] PROP = "C10" -> J10(c) [] PROP = "C12" -> J12(c) [] PROP = "C19" -> J19(c)
              [] PROP = "C21" -> J21(c) [] PROP = "C28" -> J28(c)
TraceInit == k \in 0..(NCH - 1) /\ i = 0 /\ ok = TRUE
TraceNext == /\ k + i * NCH + 1 <= Len(Cases)
             /\ i' = i + 1 /\ k' = k
             /\ ok' = Judge(Cases[k + i * NCH + 1])
Holds == ok
Alias == [k |-> k, i |-> i, ok |-> ok, bad |-> IF ok \/ i = 0 THEN <<>> ELSE Cases[k + (i - 1) * NCH + 1]]
=============================================================================
