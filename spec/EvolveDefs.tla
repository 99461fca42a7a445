----------------------------- MODULE EvolveDefs -----------------------------
(* Regularised evolution: ageing, variation operators on trees, tournaments,  *)
(* acceptance. Shared by the design model (Evolve.tla) and by the validation  *)
(* of recorded evolution events (EvolveCases.tla).                            *)
EXTENDS Expr, TLC

Idx(s) == 1..Len(s)
Count(s, m) == Cardinality({i \in Idx(s) : s[i] = m})
SameBag(s, t) == Len(s) = Len(t) /\ \A m \in ToSet(s) \cup ToSet(t) : Count(s, m) = Count(t, m)
Without(s, I) == LET keep == SelectSeq([i \in Idx(s) |-> i], LAMBDA i : i \notin I) IN [j \in Idx(keep) |-> s[keep[j]]]
CeilDiv(a, b) == (a + b - 1) \div b

(* ---- ageing: which members an event may replace (ties in birth are open) -- *)
OldestOf(p) == {i \in Idx(p) : \A j \in Idx(p) : p[i].b <= p[j].b}
TwoOldestOf(p) ==
  {I \in SUBSET Idx(p) : Cardinality(I) = 2 /\ \A i \in I : \A j \in Idx(p) \ I : p[i].b <= p[j].b}
ReplacesOldest(pre, post, new) ==
  \E i \in OldestOf(pre) : SameBag(post, Append(Without(pre, {i}), new))
ReplacesTwoOldest(pre, post, n1, n2) ==
  \E I \in TwoOldestOf(pre) : SameBag(post, Without(pre, I) \o <<n1, n2>>)

(* a newcomer: fresh identifier and birth, parent present before the event *)
Fresh(m, pre, nid, nid2, nb, nb2) ==
  /\ m.id >= nid /\ m.id < nid2 /\ m.b >= nb /\ m.b < nb2
  /\ \A q \in ToSet(pre) : m.id # q.id /\ m.b > q.b
  /\ \E q \in ToSet(pre) : m.pa = q.id

(* ---- trees with constants written out: <<0,f,0>>, <<1,value,0>>, <<2,arity,op>> *)
Sub(t, inf, i) == SubSeq(t, inf[i].st, i)
Put(t, inf, i, new) == SubSeq(t, 1, inf[i].st - 1) \o new \o SubSeq(t, i + 1, Len(t))
Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Node(kids, n) == Append(Concat(kids), n)
Kids(t, inf, i) == [j \in Idx(inf[i].kids) |-> Sub(t, inf, inf[i].kids[j])]
IsLeaf(n) == n[1] # 2
DiffAt(t, u) == {i \in Idx(t) : t[i] # u[i]}

(* ops: set of <<arity, op>>; nf: number of features *)
SelectedOnly(t, ops, nf) ==
  \A i \in Idx(t) : CASE t[i][1] = 0 -> t[i][2] < nf [] t[i][1] = 2 -> <<t[i][2], t[i][3]>> \in ops [] OTHER -> TRUE

(* what each kind of variation may turn t into (t itself stands for "nothing happened") *)
ChangesConstant(t, u) == Len(u) = Len(t) /\ Cardinality(DiffAt(t, u)) <= 1 /\ \A i \in DiffAt(t, u) : t[i][1] = 1 /\ u[i][1] = 1
ChangesConstants(t, u) == Len(u) = Len(t) /\ \A i \in DiffAt(t, u) : t[i][1] = 1 /\ u[i][1] = 1
ChangesOperator(t, u) ==
  Len(u) = Len(t) /\ Cardinality(DiffAt(t, u)) <= 1 /\ \A i \in DiffAt(t, u) : t[i][1] = 2 /\ u[i][1] = 2 /\ t[i][2] = u[i][2]
ChangesFeature(t, u) ==
  Len(u) = Len(t) /\ Cardinality(DiffAt(t, u)) = 1 /\ \A i \in DiffAt(t, u) : t[i][1] = 0 /\ u[i][1] = 0

Swapped(t, inf) ==
  {LET k == Kids(t, inf, i) IN Put(t, inf, i, Node(<<k[2], k[1]>>, t[i])) : i \in {j \in Idx(t) : t[j][1] = 2 /\ t[j][2] = 2}}
Deleted(t, inf) ==
  UNION {{Put(t, inf, i, Kids(t, inf, i)[j]) : j \in Idx(inf[i].kids)} : i \in {j \in Idx(t) : t[j][1] = 2}}
(* rotate the edge from operator i to its operator child number j, using that child's child number g *)
Rotation(t, inf, i, j, g) ==
  LET p    == inf[i].kids[j]
      root == Kids(t, inf, i)
      piv  == Kids(t, inf, p)
  IN Put(t, inf, i, Node([piv EXCEPT ![g] = Node([root EXCEPT ![j] = piv[g]], t[i])], t[p]))
Rotated(t, inf) ==
  UNION {UNION {{Rotation(t, inf, i, j, g) : g \in Idx(inf[inf[i].kids[j]].kids)} :
                  j \in {q \in Idx(inf[i].kids) : ~IsLeaf(t[inf[i].kids[q]])}} : i \in {q \in Idx(t) : t[q][1] = 2}}

(* u is t with the subtree at i put under a new operator as argument j, all other arguments fresh leaves *)
WrappedAt(t, inf, u, i, j, ops) ==
  LET s == inf[i].st
      a == Len(u) - Len(t)            \* arity of the new operator
      w == i - s + 1
      root == i + a
  IN /\ a >= 1 /\ j <= a /\ <<a, u[root][3]>> \in ops /\ u[root] = <<2, a, u[root][3]>>
     /\ SubSeq(u, 1, s - 1) = SubSeq(t, 1, s - 1)
     /\ \A q \in s..(s + j - 2) : IsLeaf(u[q])
     /\ SubSeq(u, s + j - 1, s + j - 2 + w) = SubSeq(t, s, i)
     /\ \A q \in (s + j - 1 + w)..(root - 1) : IsLeaf(u[q])
     /\ SubSeq(u, root + 1, Len(u)) = SubSeq(t, i + 1, Len(t))
Inserted(t, inf, u, ops) ==
  Len(u) > Len(t) /\ \E i \in Idx(t) : \E j \in 1..(Len(u) - Len(t)) : WrappedAt(t, inf, u, i, j, ops)
(* u is t with leaf i replaced by a new operator over fresh leaves *)
Appended(t, inf, u, ops) ==
  Len(u) > Len(t) /\ \E i \in Idx(t) :
    LET a == Len(u) - Len(t)
    IN /\ IsLeaf(t[i])
       /\ SubSeq(u, 1, i - 1) = SubSeq(t, 1, i - 1)
       /\ \A q \in i..(i + a - 1) : IsLeaf(u[q])
       /\ u[i + a][1] = 2 /\ u[i + a][2] = a /\ <<a, u[i + a][3]>> \in ops
       /\ SubSeq(u, i + a + 1, Len(u)) = SubSeq(t, i + 1, Len(t))
Prepended(t, inf, u, ops) ==
  Len(u) > Len(t) /\ \E j \in 1..(Len(u) - Len(t)) : WrappedAt(t, inf, u, Len(t), j, ops)

Variation(kind, t, u, ops) ==
  LET inf == Info(t).inf
  IN CASE kind = "mutate_constant" -> ChangesConstant(t, u)
       [] kind = "mutate_operator" -> ChangesOperator(t, u)
       [] kind = "mutate_feature"  -> ChangesFeature(t, u)
       [] kind = "swap_operands"   -> u \in Swapped(t, inf)
       [] kind = "rotate_tree"     -> u \in Rotated(t, inf)
       [] kind = "add_node"        -> Appended(t, inf, u, ops) \/ Prepended(t, inf, u, ops)
       [] kind = "insert_node"     -> Inserted(t, inf, u, ops)
       [] kind = "delete_node"     -> u \in Deleted(t, inf)
       [] kind = "randomize"       -> TRUE
       [] kind = "simplify"        -> Len(u) <= Len(t)
       [] kind = "optimize"        -> ChangesConstants(t, u)
       [] kind = "do_nothing"      -> u = t

(* crossover exchanges one subtree of each parent *)
Crossings(t, u) ==
  LET it == Info(t).inf
      iu == Info(u).inf
  IN {<<Put(t, it, i, Sub(u, iu, j)), Put(u, iu, j, Sub(t, it, i))>> : i \in Idx(t), j \in Idx(u)}
IsCrossing(t, u, a, b) ==
  LET it == Info(t).inf
      iu == Info(u).inf
  IN /\ Len(a) + Len(b) = Len(t) + Len(u)
     /\ \E i \in Idx(t), j \in Idx(u) :
          /\ Len(a) = Len(t) - (i - it[i].st + 1) + (j - iu[j].st + 1)
          /\ a = Put(t, it, i, Sub(u, iu, j)) /\ b = Put(u, iu, j, Sub(t, it, i))

(* everything a kind can produce from t, new constants written as <<1, 0, 0>>; leaves: set of fresh leaves *)
RECURSIVE LeafSeqs(_, _)
LeafSeqs(leaves, n) == IF n = 0 THEN {<<>>} ELSE {Append(s, l) : s \in LeafSeqs(leaves, n - 1), l \in leaves}
Wraps(t, inf, i, ops, leaves) ==
  UNION {UNION {{Put(t, inf, i, SubSeq(s, 1, j - 1) \o Sub(t, inf, i) \o SubSeq(s, j, o[1] - 1) \o <<<<2, o[1], o[2]>>>>) :
                   s \in LeafSeqs(leaves, o[1] - 1)} : j \in 1..o[1]} : o \in ops}
Grows(t, inf, i, ops, leaves) ==
  UNION {{Put(t, inf, i, s \o <<<<2, o[1], o[2]>>>>) : s \in LeafSeqs(leaves, o[1])} : o \in ops}
Outcomes(kind, t, ops, nf) ==
  LET inf == Info(t).inf
      leaves == {<<0, f, 0>> : f \in 0..(nf - 1)} \cup {<<1, 0, 0>>}
  IN CASE kind = "mutate_constant" -> {[t EXCEPT ![i] = <<1, 0, 0>>] : i \in {j \in Idx(t) : t[j][1] = 1}}
       [] kind = "mutate_operator" ->
            UNION {{[t EXCEPT ![i] = <<2, o[1], o[2]>>] : o \in {q \in ops : q[1] = t[i][2]}} : i \in {j \in Idx(t) : t[j][1] = 2}}
       [] kind = "mutate_feature" ->
            UNION {{[t EXCEPT ![i] = <<0, f, 0>>] : f \in (0..(nf - 1)) \ {t[i][2]}} : i \in {j \in Idx(t) : t[j][1] = 0}}
       [] kind = "swap_operands" -> Swapped(t, inf)
       [] kind = "rotate_tree" -> Rotated(t, inf)
       [] kind = "delete_node" -> Deleted(t, inf)
       [] kind = "insert_node" -> UNION {Wraps(t, inf, i, ops, leaves) : i \in Idx(t)}
       [] kind = "add_node" -> Wraps(t, inf, Len(t), ops, leaves)
                               \cup UNION {Grows(t, inf, i, ops, leaves) : i \in {j \in Idx(t) : IsLeaf(t[j])}}

(* ---- tournaments: exact chance, as a rational, that a member wins ---------- *)
RECURSIVE Choose(_, _)
Choose(n, k) == IF k < 0 \/ k > n THEN 0 ELSE IF k = 0 \/ k = n THEN 1 ELSE Choose(n - 1, k - 1) + Choose(n - 1, k)
Pow2(k) == 2 ^ k
(* sizes: N members, n drawn; the member has `less` better and `more` worse ones, no ties.   *)
(* base = 0: always the best of the sample; else place k with weight base^-k, k = 1..n        *)
WinNum(N, n, less, more, base) ==
  IF base = 0 THEN Choose(more, n - 1)
  ELSE SumSeq([k \in 1..n |-> base ^ (n - k) * Choose(less, k - 1) * Choose(more, n - k)])
WinDen(N, n, base) == Choose(N, n) * (IF base = 0 THEN 1 ELSE SumSeq([k \in 1..n |-> base ^ (n - k)]))

(* observed count `obs` of `trials` is within six standard deviations (plus rounding) of num/den *)
Plausible(obs, trials, num, den) ==
  LET e == (trials * num) \div den
      v == (e * (den - num)) \div den        \* variance
      d == IF obs > e THEN obs - e ELSE e - obs
  IN IF num = 0 THEN obs = 0 ELSE IF num >= den THEN obs = trials ELSE d <= 2 \/ (d - 2) * (d - 2) <= 36 * (v + 1)

(* ---- acceptance: chance of accepting, as a rational ------------------------ *)
(* steps: cost change in units of temperature*alpha*ln 2; fo, fn: frequencies at *)
(* the old and the new complexity                                              *)
AcceptNum(anneal, steps, usefreq, fo, fn) ==
  (IF anneal /\ steps < 0 THEN Pow2(-steps) ELSE 1) * (IF usefreq THEN fo ELSE 1)
AcceptDen(anneal, steps, usefreq, fo, fn) ==
  (IF anneal /\ steps > 0 THEN Pow2(steps) ELSE 1) * (IF usefreq THEN fn ELSE 1)
=============================================================================
