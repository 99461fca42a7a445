------------------------------ MODULE TreeDefs ------------------------------
(* Walks of a postfix expression and its constant slots. *)
EXTENDS Expr
(* parent first, then its children from left to right *)
Prefix(nodes) == LET inf == Info(nodes).inf IN
  Up(nodes, inf, LAMBDA n, ks : <<n>> \o FoldLeft(LAMBDA a, b : a \o b, <<>>, ks))[Len(nodes)]
Count(nodes, kind) == Cardinality({j \in 1..Len(nodes) : nodes[j][1] = kind})
MaxArityOf(nodes) == MaxSeq([j \in 1..Len(nodes) |-> Arity(nodes[j])])
(* ---- constants: slots are numbered from 0 ---- *)
ConstNodes(nodes) == SelectSeq(nodes, LAMBDA n : n[1] = 1)
Values(nodes, c) == LET s == ConstNodes(nodes) IN [j \in 1..Len(s) |-> c[s[j][2] + 1]]
SameSharing(a, b) == LET s == ConstNodes(a) t == ConstNodes(b) IN
  Len(s) = Len(t) /\ \A j, m \in 1..Len(s) : s[j][2] = s[m][2] <=> t[j][2] = t[m][2]
(* slots in order of first appearance *)
Firsts(nodes) == FoldLeft(LAMBDA acc, n : IF n[1] = 1 /\ ~\E j \in 1..Len(acc) : acc[j] = n[2] THEN Append(acc, n[2]) ELSE acc, <<>>, nodes)
Compress(nodes, c) ==
  LET f == Firsts(nodes)
  IN  [n |-> [j \in 1..Len(nodes) |-> IF nodes[j][1] = 1 THEN <<1, (CHOOSE m \in 1..Len(f) : f[m] = nodes[j][2]) - 1, 0>> ELSE nodes[j]],
       c |-> [j \in 1..Len(f) |-> c[f[j] + 1]]]
=============================================================================
