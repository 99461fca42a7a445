----------------------------- MODULE TreeCases ------------------------------
(* Answers of the real structural queries, judged against the tree they are about. *)
EXTENDS TreeDefs, Json, IOUtils, TLC
Cases == JsonDeserialize(IOEnv.TRACE_FILE).cases
NCH == 32
VARIABLES k, i, ok
vars == <<k, i, ok>>

Seen(c) == [j \in 1..Len(c) |-> [q \in 1..Len(c[j]) |-> c[j][q]]]
DepthOf(n) == LET r == Info(n) IN Depths(n, r.inf)[Len(n)]
Answers(c) ==
  LET n == c.n
      inf == Info(n).inf
      a == c.ans
  IN  /\ a.depth = DepthOf(n)
      /\ \A j \in 1..Len(n) : a.sizes[j] = j + 1 - inf[j].st /\ a.ranges[j] = <<inf[j].st - 1, j - 1>>
      /\ a.nodes = Len(n) /\ a.vars = Count(n, 0) /\ a.consts = Count(n, 1) /\ a.ops = Count(n, 2)
      /\ a.arity = MaxArityOf(n) /\ a.leaf = (Len(n) = 1)
      /\ a.has = <<Count(n, 0) > 0, Count(n, 1) > 0, Count(n, 2) > 0>>
      /\ Seen(a.walk) = Prefix(n) /\ Seen(a.walk2) = Prefix(n)
      /\ a.calls = <<Len(n) - Count(n, 2), Count(n, 2)>>
Refused(c) == /\ \A j \in 1..Len(c.refused) : c.refused[j]
              /\ c.then.depth = DepthOf(c.then.n)
Constants(c) ==
  LET s == c.slots
      x == Compress(c.n, s.before)
      put == FoldLeft(LAMBDA v, j : [v EXCEPT ![s.at[j] + 1] = s.new[j]], s.before, [j \in 1..Len(s.at) |-> j])
  IN  /\ s.got = s.before /\ s.whole = s.news /\ s.part = put
      /\ Seen(s.n2) = x.n /\ s.c2 = x.c
      /\ s.changed = (x.n # c.n \/ x.c # s.before) /\ ~s.again
Judge(c) == /\ c.valid = WellFormed(c.n)
            /\ IF c.valid THEN Answers(c) ELSE (\E j \in 1..Len(c.n) : c.n[j][1] = 2 /\ c.n[j][2] = 0) \/ Refused(c)
            /\ Constants(c)

TraceInit == k \in 0..(NCH - 1) /\ i = 0 /\ ok = TRUE
TraceNext == /\ ok /\ k + i * NCH + 1 <= Len(Cases)
             /\ i' = i + 1 /\ k' = k
             /\ ok' = Judge(Cases[k + i * NCH + 1])
Holds == ok
Alias == [k |-> k, i |-> i, ok |-> ok, bad |-> IF ok \/ i = 0 THEN <<>> ELSE Cases[k + (i - 1) * NCH + 1]]
=============================================================================
