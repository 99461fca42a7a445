---------------------------- MODULE WorkerTrace ----------------------------
(* Runs of the real worker under the schedules of Worker.tla.                *)
EXTENDS WorkerDefs, Json, IOUtils, TLC
Runs == JsonDeserialize(IOEnv.TRACE_FILE).runs
NCH == 64
VARIABLES k, i, j, mon, ok
vars == <<k, i, j, mon, ok>>
Run == Runs[k + i * NCH]
TraceInit == k \in 1..NCH /\ i = 0 /\ j = 1 /\ mon = Mon0 /\ ok = TRUE
TraceNext ==
  /\ ok /\ k + i * NCH <= Len(Runs) /\ k' = k
  /\ IF j <= Len(Run.steps)
     THEN /\ ok' = StepOK(mon, Run.steps[j], Run.cfg.total, Run.cfg.failInit)
          /\ mon' = After(mon, Run.steps[j])
          /\ j' = j + 1 /\ i' = i
     ELSE (* the run has been drained: every timer fired, every initialisation resolved *)
          /\ ok' = (Run.left = 0 /\ ~mon.started)
          /\ mon' = Mon0 /\ i' = i + 1 /\ j' = 1
Holds == ok
Alias == [k |-> k, i |-> i, j |-> j, ok |-> ok, mon |-> mon,
          word |-> IF k + i * NCH <= Len(Runs) THEN Run.word ELSE "",
          cfg |-> IF k + i * NCH <= Len(Runs) THEN Run.cfg ELSE <<>>,
          step |-> IF ~ok /\ j > 1 THEN Run.steps[j - 1] ELSE <<>>]
=============================================================================
