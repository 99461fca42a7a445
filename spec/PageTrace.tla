----------------------------- MODULE PageTrace -----------------------------
(* Runs of the real page and the real worker under the schedules of Page.tla. *)
EXTENDS PageDefs, Json, IOUtils, TLC
Runs == JsonDeserialize(IOEnv.TRACE_FILE).runs
NCH == 64
VARIABLES k, i, j, mon, ok
vars == <<k, i, j, mon, ok>>
Run == Runs[k + i * NCH]
TraceInit == k \in 1..NCH /\ i = 0 /\ j = 1 /\ mon = Mon0 /\ ok = TRUE
TraceNext ==
  /\ ok /\ k + i * NCH <= Len(Runs) /\ k' = k
  /\ IF j <= Len(Run.steps)
     THEN /\ ok' = StepOK(mon, Run.steps[j])
          /\ mon' = IF ok' THEN After(mon, Run.steps[j]) ELSE mon
          /\ j' = j + 1 /\ i' = i
     ELSE /\ ok' = (Run.fault = "" /\ ~Run.left /\ EndOK(mon, Run.steps[Len(Run.steps)].view))
          /\ mon' = Mon0 /\ i' = i + 1 /\ j' = 1
Holds == ok
Alias == [k |-> k, i |-> i, j |-> j, ok |-> ok, mon |-> mon,
          word |-> IF k + i * NCH <= Len(Runs) THEN Run.word ELSE "",
          cfg |-> IF k + i * NCH <= Len(Runs) THEN Run.cfg ELSE <<>>,
          step |-> IF ~ok /\ j > 1 THEN Run.steps[j - 1] ELSE <<>>]
=============================================================================
