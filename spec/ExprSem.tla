------------------------------- MODULE ExprSem -------------------------------
(* What an expression means: values, derivatives, printed form, composition. *)
EXTENDS Expr, TLC

NAN == 1073741824   \* the harness' code for "not a small integer"

(* ---- values over the integers (operators that stay in the integers) ------ *)
Abs(v) == IF v < 0 THEN -v ELSE v
IntOp(name, a) ==
  CASE name = "add" -> a[1] + a[2]
    [] name = "sub" -> a[1] - a[2]
    [] name = "mul" -> a[1] * a[2]
    [] name = "neg" -> -a[1]
    [] name = "max" -> Max2(a[1], a[2])
    [] name = "min" -> Min2(a[1], a[2])
    [] name = "abs" -> Abs(a[1])
    [] name = "abs2" -> a[1] * a[1]
    [] name = "identity" -> a[1]
    [] name = "fma" -> a[1] * a[2] + a[3]
    [] name = "clamp" -> IF a[1] < a[2] THEN a[2] ELSE IF a[1] > a[3] THEN a[3] ELSE a[1]
    (* the harness' own operator set *)
    [] name = "rsub" -> a[2] - a[1]
    [] name = "lin3" -> a[1] + 2 * a[2] - 3 * a[3]
    [] name = "lin4" -> a[1] - 2 * a[2] + 3 * a[3] - 5 * a[4]
    [] name = "mix4" -> a[1] * a[2] - a[3] * a[4]

LeafInt(n, c, row) == IF n[1] = 0 THEN row[n[2] + 1] ELSE c[n[2] + 1]
EvalsInt(nodes, inf, c, row) ==
  Up(nodes, inf, LAMBDA n, ks : IF IsOp(n) THEN IntOp(n[3], ks) ELSE LeafInt(n, c, row))
EvalInt(nodes, c, row) == LET e == EvalsInt(nodes, Info(nodes).inf, c, row) IN e[Len(nodes)]

(* ---- partial derivatives and the chain rule over the integers ------------ *)
Smooth(name, a) ==
  CASE name \in {"max", "min"} -> a[1] # a[2]
    [] name = "abs" -> a[1] # 0
    [] name = "clamp" -> a[2] < a[3] /\ a[1] # a[2] /\ a[1] # a[3]
    [] OTHER -> TRUE
IntPartial(name, a, j) ==
  CASE name = "add" -> 1
    [] name = "sub" -> IF j = 1 THEN 1 ELSE -1
    [] name = "mul" -> a[3 - j]
    [] name = "neg" -> -1
    [] name = "max" -> IF a[j] > a[3 - j] THEN 1 ELSE 0
    [] name = "min" -> IF a[j] < a[3 - j] THEN 1 ELSE 0
    [] name = "abs" -> IF a[1] < 0 THEN -1 ELSE 1
    [] name = "abs2" -> 2 * a[1]
    [] name = "identity" -> 1
    [] name = "fma" -> IF j = 3 THEN 1 ELSE a[3 - j]
    [] name = "clamp" -> IF a[1] < a[2] THEN (IF j = 2 THEN 1 ELSE 0)
                         ELSE IF a[1] > a[3] THEN (IF j = 3 THEN 1 ELSE 0)
                         ELSE (IF j = 1 THEN 1 ELSE 0)
    [] name = "rsub" -> IF j = 1 THEN -1 ELSE 1
    [] name = "lin3" -> <<1, 2, -3>>[j]
    [] name = "lin4" -> <<1, -2, 3, -5>>[j]
    [] name = "mix4" -> <<a[2], a[1], -a[4], -a[3]>>[j]

(* dual numbers <<value, derivative, smooth>>; `mode` 0: variable dir, 1: constant slot dir *)
DualsInt(nodes, inf, c, row, mode, dir) ==
  Up(nodes, inf, LAMBDA n, ks :
       IF IsOp(n)
       THEN LET a == [j \in 1..Len(ks) |-> ks[j][1]]
            IN <<IntOp(n[3], a),
                 SumSeq([j \in 1..Len(ks) |-> IntPartial(n[3], a, j) * ks[j][2]]),
                 Smooth(n[3], a) /\ \A j \in 1..Len(ks) : ks[j][3]>>
       ELSE <<LeafInt(n, c, row), IF n[1] = mode /\ n[2] = dir THEN 1 ELSE 0, TRUE>>)

(* the chain rule as a sum over leaves of products along the way to the root: *)
(* for each leaf of the wanted kind, the <<node, argument>> steps from leaf to root *)
ParentOf(inf, i) == CHOOSE p \in 1..Len(inf) : \E j \in 1..Len(inf[p].kids) : inf[p].kids[j] = i
RECURSIVE WayUp(_, _)
WayUp(inf, i) ==
  IF i = Len(inf) THEN <<>>
  ELSE LET p == ParentOf(inf, i)
           j == CHOOSE j \in 1..Len(inf[p].kids) : inf[p].kids[j] = i
       IN <<<<p, j>>>> \o WayUp(inf, p)
ChainTerms(nodes, inf, mode, dir) ==
  LET ls == SelectSeq([i \in 1..Len(nodes) |-> i], LAMBDA i : nodes[i][1] = mode /\ nodes[i][2] = dir)
  IN [k \in 1..Len(ls) |-> <<ls[k], WayUp(inf, ls[k])>>]

(* ---- values through a table of operator applications <<name, args, result>> *)
TabFun(tab) == [k \in {<<t[1], t[2]>> : t \in Range(tab)} |->
                  (CHOOSE t \in Range(tab) : t[1] = k[1] /\ t[2] = k[2])[3]]
EvalsTab(nodes, inf, f, cids, row) ==
  Up(nodes, inf, LAMBDA n, ks : IF IsOp(n) THEN (IF <<n[3], ks>> \in DOMAIN f THEN f[<<n[3], ks>>] ELSE -1)
                                ELSE LeafInt(n, cids, row))

(* ---- compiled plans: instructions <<arity, op, args, dst>> over slots ----- *)
(* A source is <<0,f>> / <<1,i>> / <<2,slot>>. Executing a plan on symbols must *)
(* give back the tree it was compiled from.                                   *)
SrcNodes(s, slots) == IF s[1] = 2 THEN (IF s[2] \in DOMAIN slots THEN slots[s[2]] ELSE <<>>)
                      ELSE <<<<s[1], s[2], 0>>>>
RunInstr(slots, ins) ==
  LET argn == FoldLeft(LAMBDA acc, s : acc \o SrcNodes(s, slots), <<>>, ins[3])
  IN (ins[4] :> Append(argn, <<2, ins[1], ins[2]>>)) @@ slots
PlanMeaning(plan) == SrcNodes(plan.root, FoldLeft(RunInstr, <<>>, plan.instrs))
PlanOK(nodes, plan) ==
  /\ PlanMeaning(plan) = nodes
  /\ \A k \in 1..Len(plan.instrs) :
       LET ins == plan.instrs[k]
       IN ins[4] < plan.nslots /\ Len(ins[3]) = ins[1] /\ \A j \in 1..Len(ins[3]) : ins[3][j] # <<2, ins[4]>>

(* ---- printed equations: a parser for the infix/function notation ---------- *)
(* Tokens: <<"(">>, <<")">>, <<",">>, <<"id", name>>, <<"sym", s>>,            *)
(* <<"num", slots>> (the constant slots holding the printed number).          *)
(* ops: <<token, arity, operator name, form>>, form "infix" or "call".         *)
Bad == [ok |-> FALSE, n |-> <<>>, p |-> 0]
Tok(ts, p) == IF p <= Len(ts) THEN ts[p] ELSE <<"end">>
OpNames(ops, tok, arity, form) == {o[3] : o \in {x \in Range(ops) : x[1] = tok /\ x[2] = arity /\ x[4] = form}}
RECURSIVE PTerm(_, _, _, _), PChain(_, _, _, _), PArgs(_, _, _, _), PMore(_, _, _, _, _, _)
(* a chain of terms joined by one infix symbol is one operator of that many arguments *)
PMore(ts, p, vn, ops, acc, sym) ==
  IF Tok(ts, p)[1] = "sym" /\ (sym = "" \/ Tok(ts, p)[2] = sym)
  THEN LET t == PTerm(ts, p + 1, vn, ops)
       IN IF ~t.ok THEN Bad ELSE PMore(ts, t.p, vn, ops, Append(acc, t.n), Tok(ts, p)[2])
  ELSE IF Len(acc) = 1 THEN [ok |-> TRUE, n |-> acc[1], p |-> p]
  ELSE LET nm == OpNames(ops, sym, Len(acc), "infix")
       IN IF Cardinality(nm) # 1 THEN Bad
          ELSE [ok |-> TRUE, p |-> p,
                n |-> Append(FoldLeft(LAMBDA a, b : a \o b, <<>>, acc), <<2, Len(acc), CHOOSE x \in nm : TRUE>>)]
PChain(ts, p, vn, ops) ==
  LET t == PTerm(ts, p, vn, ops) IN IF ~t.ok THEN Bad ELSE PMore(ts, t.p, vn, ops, <<t.n>>, "")
PArgs(ts, p, vn, ops) ==   \* n: sequence of argument node sequences
  LET t == PChain(ts, p, vn, ops)
  IN IF ~t.ok THEN Bad
     ELSE IF Tok(ts, t.p) = <<",">>
          THEN LET r == PArgs(ts, t.p + 1, vn, ops)
               IN IF ~r.ok THEN Bad ELSE [ok |-> TRUE, n |-> <<t.n>> \o r.n, p |-> r.p]
          ELSE IF Tok(ts, t.p) = <<")">> THEN [ok |-> TRUE, n |-> <<t.n>>, p |-> t.p + 1] ELSE Bad
PTerm(ts, p, vn, ops) ==
  LET t == Tok(ts, p)
  IN CASE t[1] = "num" -> [ok |-> TRUE, n |-> <<<<1, t[2], 0>>>>, p |-> p + 1]
       [] t[1] = "(" -> LET e == PChain(ts, p + 1, vn, ops)
                        IN IF e.ok /\ Tok(ts, e.p) = <<")">> THEN [e EXCEPT !.p = e.p + 1] ELSE Bad
       [] t[1] \in {"id", "sym"} /\ Tok(ts, p + 1) = <<"(">> ->
            LET r == PArgs(ts, p + 2, vn, ops)
                nm == OpNames(ops, t[2], Len(r.n), "call")
            IN IF ~r.ok \/ Cardinality(nm) # 1 THEN Bad
               ELSE [ok |-> TRUE, p |-> r.p,
                     n |-> Append(FoldLeft(LAMBDA a, b : a \o b, <<>>, r.n), <<2, Len(r.n), CHOOSE x \in nm : TRUE>>)]
       [] t[1] = "id" -> LET fs == {i \in 1..Len(vn) : vn[i] = t[2]}
                         IN IF Cardinality(fs) # 1 THEN Bad
                            ELSE [ok |-> TRUE, n |-> <<<<0, (CHOOSE i \in fs : TRUE) - 1, 0>>>>, p |-> p + 1]
       [] OTHER -> Bad
Parse(ts, vn, ops) == LET r == PChain(ts, 1, vn, ops) IN IF r.ok /\ r.p = Len(ts) + 1 THEN r ELSE Bad
SameTree(parsed, nodes) ==
  /\ Len(parsed) = Len(nodes)
  /\ \A i \in 1..Len(nodes) :
       IF nodes[i][1] = 1 THEN parsed[i][1] = 1 /\ nodes[i][2] \in Range(parsed[i][2])
       ELSE parsed[i] = nodes[i]

(* ---- composition: an expression with its constants written out ------------ *)
Denote(nodes, c) == [i \in 1..Len(nodes) |-> IF nodes[i][1] = 1 THEN <<1, c[nodes[i][2] + 1], 0>> ELSE nodes[i]]
SlotsOf(nodes) == {nodes[i][2] : i \in {k \in 1..Len(nodes) : nodes[k][1] = 1}}
=============================================================================
