----------------------------- MODULE FormTrace -----------------------------
(* Runs of the real page: the forms, and the initialisations built from them. *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Trace == JsonDeserialize(IOEnv.TRACE_FILE)
Runs == Trace.runs
Tables == Trace.tables
Defaults == Trace.defaults
Registry == Trace.registry
INSTANCE FormDefs
NCH == 64
VARIABLES k, i, j, frm, ok
vars == <<k, i, j, frm, ok>>
Run == Runs[k + i * NCH]
TraceInit == k \in 1..NCH /\ i = 0 /\ j = 1 /\ ok = TRUE /\ frm = (IF k <= Len(Runs) THEN Form0(Run.cfg.csv) ELSE <<>>)
TraceNext ==
  /\ ok /\ k + i * NCH <= Len(Runs) /\ k' = k
  /\ IF j <= Len(Run.steps)
     THEN /\ ok' = FormOK(frm, Run.steps[j])
          /\ frm' = IF ok' THEN AfterF(frm, Run.steps[j]) ELSE frm
          /\ j' = j + 1 /\ i' = i
     ELSE /\ ok' = (Run.fault = "")
          /\ i' = i + 1 /\ j' = 1
          /\ frm' = IF k + (i + 1) * NCH <= Len(Runs) THEN Form0(Runs[k + (i + 1) * NCH].cfg.csv) ELSE <<>>
Holds == ok
Alias == [k |-> k, i |-> i, j |-> j, ok |-> ok, frm |-> frm,
          word |-> IF k + i * NCH <= Len(Runs) THEN Run.word ELSE "",
          cfg |-> IF k + i * NCH <= Len(Runs) THEN Run.cfg ELSE <<>>,
          step |-> IF ~ok /\ j > 1 THEN Run.steps[j - 1] ELSE <<>>]
=============================================================================
