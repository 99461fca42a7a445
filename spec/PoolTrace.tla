----------------------------- MODULE PoolTrace -----------------------------
(* Outcomes of the scenarios of Pool.tla run in the real code (C07): every  *)
(* caller has an answer, and it is the one the design model gives.          *)
EXTENDS Integers, Sequences, Json, TLC, IOUtils
Runs == JsonDeserialize(IOEnv.TRACE_FILE).runs
VARIABLES r, ok
(* fired: the injected fault really happened in that search *)
Expected(fired) == IF fired THEN "p" ELSE "r"
RunOk(x) == /\ Len(x.out) = Len(x.sc.where)
            /\ \A s \in 1..Len(x.out) : x.out[s].o = Expected(x.out[s].fired)
Init == r = 0 /\ ok = TRUE
Next == r < Len(Runs) /\ r' = r + 1 /\ ok' = RunOk(Runs[r + 1])
Holds == ok
Alias == [run |-> r, ok |-> ok, scenario |-> IF r = 0 THEN <<>> ELSE <<Runs[r].sc, Runs[r].out>>]
=============================================================================
