----------------------------- MODULE TermCases ------------------------------
(* What stood on the terminal while real searches ran, against their states.  *)
EXTENDS TermDefs, Json, IOUtils, TLC
Runs == JsonDeserialize(IOEnv.TRACE_FILE).runs
NCH == 32
VARIABLES k, i, ok
vars == <<k, i, ok>>

(* screen s shows the state st *)
Is(s, st) == s.table /\ Shows(s.rows, st.front) /\ (st.evals >= 0 => s.evals = st.evals)
OfRun(r, s) == s.iters = r.iters /\ s.len = r.total

Final(r, s) == s.at = 0 => OfRun(r, s) /\ s.pos = r.total /\ Is(s, r.states[Len(r.states)])
(* screens between cycles: of a state reached, not older than the redrawing gap, and never going back *)
Pause == <<0, 300, 560>>
Gap == 500
Paused(r, q, n) == FoldLeft(LAMBDA a, j : a + Pause[r.word[j] + 1], 0, [j \in 1..(n - q) |-> q + j])     \* at least, from state q to n
Between(r) ==
  LET mid == SelectSeq(r.shots, LAMBDA s : s.at > 0)
      of(s) == {q \in 1..s.at : Is(s, r.states[q])}
  IN  \A j \in 1..Len(mid) :
        /\ ~mid[j].blank => OfRun(r, mid[j]) /\ mid[j].pos <= mid[j].at
        /\ IF mid[j].table THEN \E q \in of(mid[j]) : Paused(r, q, mid[j].at) < Gap ELSE Paused(r, 0, mid[j].at) < Gap
        /\ (j > 1 /\ mid[j - 1].table) => mid[j].table /\ \E q \in of(mid[j]) : \E u \in of(mid[j - 1]) : u <= q
Styled(r) == \A j \in 1..Len(r.shots) : /\ r.style = "plain" => r.shots[j].styled = 0
                                      /\ (r.style = "ansi" /\ r.shots[j].table) => r.shots[j].styled > 0
Judge(r) == IF r.progress THEN /\ \A j \in 1..Len(r.shots) : Final(r, r.shots[j])
                               /\ Between(r) /\ Styled(r) /\ \E j \in 1..Len(r.shots) : r.shots[j].at = 0
            ELSE \A j \in 1..Len(r.shots) : r.shots[j].blank

TraceInit == k \in 0..(NCH - 1) /\ i = 0 /\ ok = TRUE
TraceNext == /\ ok /\ k + i * NCH + 1 <= Len(Runs)
             /\ i' = i + 1 /\ k' = k
             /\ ok' = Judge(Runs[k + i * NCH + 1])
Holds == ok
Alias == [k |-> k, i |-> i, ok |-> ok,
          bad |-> IF ok \/ i = 0 THEN <<>> ELSE LET r == Runs[k + (i - 1) * NCH + 1] IN
                  [id |-> r.id, word |-> r.word, shots |-> [j \in 1..Len(r.shots) |-> [at |-> r.shots[j].at, table |-> r.shots[j].table, pos |-> r.shots[j].pos, evals |-> r.shots[j].evals, rows |-> Len(r.shots[j].rows)]]]]
=============================================================================
