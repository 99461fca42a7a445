------------------------------ MODULE OptCases ------------------------------
(* Constant optimisation of the real code, judged case by case.               *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Cases == JsonDeserialize(IOEnv.TRACE_FILE).cases
NCH == 64
VARIABLES k, i, ok
vars == <<k, i, ok>>

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Dot(c, a, b) == SumSeq([r \in 1..Len(c.w) |-> c.w[r] * c.cols[a][r] * c.cols[b][r]])
Det2(a, b, x, y) == a * y - b * x
(* least weighted sum of squares over all constants = N / D, by Gram determinants; the last column is the target *)
D(c) == IF c.k = 1 THEN Dot(c, 1, 1) ELSE Det2(Dot(c, 1, 1), Dot(c, 1, 2), Dot(c, 2, 1), Dot(c, 2, 2))
N(c) == IF c.k = 1 THEN Det2(Dot(c, 1, 1), Dot(c, 1, 2), Dot(c, 2, 1), Dot(c, 2, 2))
        ELSE   Dot(c, 1, 1) * Det2(Dot(c, 2, 2), Dot(c, 2, 3), Dot(c, 3, 2), Dot(c, 3, 3))
             - Dot(c, 1, 2) * Det2(Dot(c, 2, 1), Dot(c, 2, 3), Dot(c, 3, 1), Dot(c, 3, 3))
             + Dot(c, 1, 3) * Det2(Dot(c, 2, 1), Dot(c, 2, 2), Dot(c, 3, 1), Dot(c, 3, 2))
Least(c) == /\ c.det = D(c)                                   \* c.loss: loss * sum of weights * D * 100000
            /\ c.loss <= 100000 * N(c) + 2 + N(c) /\ c.loss >= 100000 * N(c) - 2 - N(c)

(* one start from the current constants, the restarts spread around them (millionths of the constant) *)
Abs(v) == IF v < 0 THEN -v ELSE v
Begins(c) == /\ Len(c.begins) = c.restarts + 1
             /\ \A j \in 1..Len(c.begins[1]) : Abs(c.begins[1][j]) <= 1
             /\ c.restarts >= 7 => Cardinality({c.begins[a] : a \in 1..Len(c.begins)}) >= c.restarts - 1
             /\ c.restarts >= 40 => \A j \in 1..Len(c.begins[1]) :
                  LET near == Cardinality({a \in 2..Len(c.begins) : Abs(c.begins[a][j]) < 340000})      \* half of them
                      up == Cardinality({a \in 2..Len(c.begins) : c.begins[a][j] > 0})
                  IN  near \in 3..37 /\ up \in 3..37

Kept(c) == /\ c.notworse
           /\ ~c.spoilt => c.kept
           /\ c.slopes <= c.starts * (3 * c.iters + 1)          \* the start, and at most three per step
           /\ c.limit > 0 => c.asked <= c.starts * (c.limit + 4) + 2
Judge(c) == CASE c.t = "kept" -> Kept(c)
              [] c.t = "quad" -> Least(c)
              [] c.t = "begin" -> Begins(c)
              [] c.t = "restart" -> IF c.restarts = 0 THEN c.top ELSE c.bottom

TraceInit == k \in 0..(NCH - 1) /\ i = 0 /\ ok = TRUE
TraceNext == /\ ok /\ k + i * NCH + 1 <= Len(Cases)
             /\ i' = i + 1 /\ k' = k
             /\ ok' = Judge(Cases[k + i * NCH + 1])
Holds == ok
Alias == [k |-> k, i |-> i, ok |-> ok, bad |-> IF ok \/ i = 0 THEN <<>> ELSE Cases[k + (i - 1) * NCH + 1]]
=============================================================================
