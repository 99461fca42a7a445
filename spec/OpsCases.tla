----------------------------- MODULE OpsCases ------------------------------
(* What operator sets compiled from the declarations of OpsDefs answer. *)
EXTENDS OpsDefs, Json, IOUtils
Log == JsonDeserialize(IOEnv.TRACE_FILE)
Cases == Log.cases
LOWS == Log.lows
NCH == 16
VARIABLES k, i, ok
vars == <<k, i, ok>>
Sq(x) == [j \in 1..Len(x) |-> x[j]]

JudgeSet(c) ==
  LET s == FindSet(c.set) IN
  /\ c.max_arity = MaxArity(s)
  /\ \A a \in 0..6 : Sq(c.ids[a + 1]) = (IF a = 0 THEN <<>> ELSE IdsOf(s, a))
  /\ Sq(c.each) = FoldLeft(LAMBDA acc, a : acc \o [j \in 1..Len(IdsOf(s, a)) |-> <<a, j - 1>>], <<>>, Arities(s))
  /\ \A j \in 1..Len(c.metas) :
       LET m == c.metas[j]
           there == m.arity > 0 /\ Exists(s, m.arity, m.id)
           e == IF there THEN Meta(s, m.arity, m.id) ELSE Nobody
       IN  /\ m.there = there /\ (there => m.own = <<m.arity, m.id>>)
           /\ m.name = e.name /\ m.display = e.display /\ Sq(m.infix) = e.infix /\ m.commutative = e.commutative
           /\ m.associative = e.associative /\ m.complexity = e.complexity
  /\ Cardinality({<<c.marks[j].arity, c.marks[j].id>> : j \in 1..Len(c.marks)}) = Len(c.each) /\ Len(c.marks) = Len(c.each)
  /\ \A j \in 1..Len(c.marks) :
       LET m == c.marks[j]  e == Meta(s, m.arity, m.id)
       IN  /\ Exists(s, m.arity, m.id) /\ The(s, m.arity, m.id).mark = m.mark
           /\ m.name = e.name /\ m.display = e.display /\ Sq(m.infix) = e.infix /\ m.commutative = e.commutative
           /\ m.associative = e.associative /\ m.complexity = e.complexity
JudgePoint(c) ==
  LET o == The(FindSet(c.set), c.op[1], c.op[2]) IN
  c.value = Value(o, c.args) /\ \A j \in 1..Len(c.args) : c.partials[j] = Partial(o, c.args, j)
JudgeToken(c) ==
  LET s == FindSet(c.set)
      all == All(s, c.tok, LOWS)
      v == Verdict(s, c.tok, all)
      same(got, e) == got.r = e.r /\ got.token = e.token /\ Sq(got.op) = e.op /\ Sq(got.who) = e.who
  IN  /\ Sq(c.all) = all /\ same(c.one, v)
      /\ \A a \in 1..5 : same(c.by[a], Verdict(s, c.tok, OfArity(s, a, c.tok, LOWS)))
JudgeChoice(c) ==
  LET e == Choose(FindSet(c.set), c.d, c.asked, LOWS) IN
  c.r = e.r /\ (e.r = "ok" => \A a \in 1..c.d : Sq(c.ops[a]) = ByArity(e.ops, c.d)[a])
JudgeTree(c) ==
  LET s == FindSet(c.set)
      nf == Len(c.rows[1])
      bad == \E r \in 1..Len(c.rows) : LET e == Dual(s, c.nodes, c.rows[r], c.consts) IN
        ~(/\ c.values[r] = e[1] /\ c.again[r] = e[1] /\ c.plan[r] = e[1]
          /\ c.diff[r] = <<e[1], e[2][c.dir + 1]>>
          /\ \A f \in 1..nf : c.grad_x[f][r] = e[2][f]
          /\ \A q \in 1..Len(c.consts) : c.grad_c[q][r] = e[2][nf + q])
  IN  /\ c.complete /\ ~bad
      /\ c.plain = Written(s, c.nodes, c.consts, FALSE) /\ c.pretty = Written(s, c.nodes, c.consts, TRUE)
      /\ \A r \in 1..Len(c.rows) : c.simple.values[r] = c.values[r]
      /\ Len(c.simple.nodes) <= Len(c.nodes)
      /\ \A r \in 1..Len(c.rows) : Dual(s, c.simple.nodes, c.rows[r], c.simple.consts)[1] = c.values[r]
JudgeSearch(c) ==
  LET s == FindSet(c.set) IN
  /\ Len(c.members) = c.hall + 1 \* the hall of fame, then the best
  /\ \A j \in 1..Len(c.members) :
       LET m == c.members[j] IN
       /\ \A n \in 1..Len(m.nodes) : m.nodes[n][1] = 2 => \E q \in 1..Len(c.chosen) : c.chosen[q] = <<m.nodes[n][2], m.nodes[n][3]>>
       /\ m.complexity = Size(s, m.nodes, c.over) /\ (j <= c.hall => m.complexity <= c.maxsize)
Judge(c) == CASE c.t = "set" -> JudgeSet(c) [] c.t = "point" -> JudgePoint(c) [] c.t = "token" -> JudgeToken(c)
              [] c.t = "built" -> c.arities /\ c.got = c.want
              [] c.t = "choice" -> JudgeChoice(c) [] c.t = "tree" -> JudgeTree(c) [] c.t = "search" -> JudgeSearch(c)

TraceInit == k \in 0..(NCH - 1) /\ i = 0 /\ ok = TRUE
TraceNext == /\ ok /\ k + i * NCH + 1 <= Len(Cases)
             /\ i' = i + 1 /\ k' = k
             /\ ok' = Judge(Cases[k + i * NCH + 1])
Holds == ok
Alias == [k |-> k, i |-> i, ok |-> ok, bad |-> IF ok \/ i = 0 THEN <<>> ELSE Cases[k + (i - 1) * NCH + 1]]
=============================================================================
