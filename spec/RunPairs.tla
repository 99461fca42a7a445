------------------------------ MODULE RunPairs ------------------------------
(* Self-composition of recorded runs (C08): the runs of one group advance in *)
(* lock step, each a sequence of orchestrator events carrying the complete   *)
(* observable state, and must agree at every step. Runs of kind "order" are  *)
(* comparable when their cycles completed in the same order; runs of kind    *)
(* "step" (one worker, or the stepped engine) always are.                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC, IOUtils
S == INSTANCE Stepper WITH Total <- 0, Sizes <- {}, MaxCalls <- 0, completed <- 0, calls <- <<>>, reported <- 0
Groups == JsonDeserialize(IOEnv.TRACE_FILE).groups
VARIABLES g, i, ok
vars == <<g, i, ok>>

Log(a) == Groups[g].logs[a].ev
Order(a) == SelectSeq(Log(a), LAMBDA e : e.t = "as")
SameOrder(a, b) == LET x == Order(a)
                       y == Order(b)
                   IN Len(x) = Len(y) /\ \A k \in 1..Len(x) : x[k].p = y[k].p
Comparable(b) == Groups[g].kind = "step" \/ SameOrder(1, b)
Partners == {b \in 2..Len(Groups[g].logs) : Comparable(b)}

(* what stepping reported *)
StepsOk == \A a \in 1..Len(Groups[g].logs) :
  LET st == Groups[g].logs[a].steps
  IN \A k \in 1..Len(st) :
       /\ st[k][2] = S!Ran(st[k][1], st[k][3], Groups[g].total) /\ st[k][4] = st[k][3] + st[k][2]
       /\ (st[k][5] = 1 <=> st[k][4] = Groups[g].total)
       /\ st[k][3] = IF k = 1 THEN 0 ELSE st[k - 1][4]
Complete(a) == Log(a)[Len(Log(a))].t = "result"

Init == g \in 1..Len(Groups) /\ i = 0 /\ ok = TRUE
Begin == i = 0 /\ i' = 1 /\ ok' = (StepsOk /\ \A a \in 1..Len(Groups[g].logs) : Complete(a)) /\ UNCHANGED g
Agree == \A b \in Partners : i <= Len(Log(b)) /\ Log(b)[i] = Log(1)[i]
Step == i > 0 /\ i <= Len(Log(1)) /\ ok' = Agree /\ i' = i + 1 /\ UNCHANGED g
Next == Begin \/ Step
Holds == ok
Accepted == TLCGet("distinct") >= FoldLeft(LAMBDA n, q : n + Len(q.logs[1].ev) + 2, 0, Groups)
Alias == [group |-> Groups[g].name, kind |-> Groups[g].kind, event |-> i - 1, ok |-> ok,
          type |-> IF i > 1 THEN Log(1)[i - 1].t ELSE "start",
          differ |-> {Groups[g].logs[b].src : b \in {c \in 2..Len(Groups[g].logs) : i > 1 /\ (i - 1 > Len(Log(c)) \/ Log(c)[i - 1] # Log(1)[i - 1])}}]
=============================================================================
