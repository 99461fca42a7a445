-------------------------------- MODULE Expr --------------------------------
(* Postfix expression trees and what the system's documentation says about   *)
(* them: shape, complexity, depth, operator-argument limits, nesting limits. *)
(* A node is <<0,f,0>> (feature f), <<1,i,0>> (constant slot i) or           *)
(* <<2,arity,op>>; an expression is a sequence of nodes in postfix order.    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

IsOp(n) == n[1] = 2
Arity(n) == IF n[1] = 2 THEN n[2] ELSE 0

(* Per node: index of its first node (st) and of its children's roots (kids) *)
InfoStep(acc, n) ==
  LET i == Len(acc.inf) + 1
      a == Arity(n)
      d == Len(acc.stk)
  IN IF ~acc.ok \/ (IsOp(n) /\ (a < 1 \/ d < a)) THEN [acc EXCEPT !.ok = FALSE]
     ELSE LET kids == SubSeq(acc.stk, d - a + 1, d)
          IN [ok  |-> TRUE,
              stk |-> Append(SubSeq(acc.stk, 1, d - a), i),
              inf |-> Append(acc.inf, [st |-> IF a = 0 THEN i ELSE acc.inf[kids[1]].st, kids |-> kids])]
Info(nodes) == FoldLeft(InfoStep, [ok |-> TRUE, stk |-> <<>>, inf |-> <<>>], nodes)

WellFormed(nodes) == LET r == Info(nodes) IN r.ok /\ Len(r.stk) = 1

(* Bottom-up attribute: F(node, values of its children) *)
Up(nodes, inf, F(_, _)) ==
  FoldLeft(LAMBDA acc, n :
             LET i == Len(acc) + 1
             IN Append(acc, F(n, [j \in 1..Len(inf[i].kids) |-> acc[inf[i].kids[j]]])),
           <<>>, nodes)

SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
MaxSeq(s) == FoldLeft(LAMBDA a, b : IF b > a THEN b ELSE a, 0, s)
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

(* ---- limits; `o` has cvar, ccst, vcx (per feature), opcx (<<arity,op,w>>), *)
(* ---- maxdepth, oparg (<<arity,op,argument,limit>>), nested               *)
(* ---- (<<arity,op,inner arity,inner op,limit>>)                           *)
NodeWeight(n, o) ==
  CASE n[1] = 0 -> IF n[2] + 1 <= Len(o.vcx) THEN o.vcx[n[2] + 1] ELSE o.cvar
    [] n[1] = 1 -> o.ccst
    [] OTHER    -> LET w == SelectSeq(o.opcx, LAMBDA e : e[1] = n[2] /\ e[2] = n[3])
                   IN IF w = <<>> THEN 1 ELSE w[1][3]

Complexities(nodes, inf, o) == Up(nodes, inf, LAMBDA n, ks : NodeWeight(n, o) + SumSeq(ks))
Depths(nodes, inf) == Up(nodes, inf, LAMBDA n, ks : 1 + MaxSeq(ks))
(* greatest number of occurrences of operator <<a,op>> on a downward path from each node *)
Occurrences(nodes, inf, a, op) ==
  Up(nodes, inf, LAMBDA n, ks : MaxSeq(ks) + IF n = <<2, a, op>> THEN 1 ELSE 0)

ArgsOk(nodes, inf, cx, o) ==
  \A i \in 1..Len(nodes) : IsOp(nodes[i]) =>
    \A k \in 1..Len(o.oparg) :
      LET q == o.oparg[k]
      IN (q[1] = nodes[i][2] /\ q[2] = nodes[i][3] /\ q[3] <= Len(inf[i].kids)) => cx[inf[i].kids[q[3]]] <= q[4]

NestOk(nodes, inf, o) ==
  \A k \in 1..Len(o.nested) :
    LET q == o.nested[k]
    IN (\E i \in 1..Len(nodes) : nodes[i] = <<2, q[1], q[2]>>) =>
         LET occ == Occurrences(nodes, inf, q[3], q[4])
         IN \A i \in 1..Len(nodes) : nodes[i] = <<2, q[1], q[2]>> =>
              MaxSeq([j \in 1..Len(inf[i].kids) |-> occ[inf[i].kids[j]]]) <= q[5]

(* Everything about the limits at once: cx, and whether the limits other than size hold *)
Limits(nodes, o) ==
  LET r == Info(nodes)
  IN IF ~(r.ok /\ Len(r.stk) = 1) THEN [wf |-> FALSE, cx |-> 0, ok |-> FALSE, depth |-> 0]
     ELSE LET cx == Complexities(nodes, r.inf, o)
              dp == Depths(nodes, r.inf)
              n  == Len(nodes)
          IN [wf |-> TRUE, cx |-> cx[n], depth |-> dp[n],
              ok |-> dp[n] <= o.maxdepth /\ ArgsOk(nodes, r.inf, cx, o) /\ NestOk(nodes, r.inf, o)]

Feasible(nodes, o, limit) == LET L == Limits(nodes, o) IN L.wf /\ L.ok /\ L.cx <= limit
=============================================================================
