------------------------------- MODULE Evolve -------------------------------
(* Design model of regularised evolution on one population: every event either *)
(* leaves the population alone or replaces the oldest member (mutation) or the  *)
(* two oldest (crossover) by newcomers with fresh identities.                   *)
EXTENDS EvolveDefs
CONSTANTS N, MaxEvents, SCENARIOS

VARIABLES pop, nid, nb, n, births0
vars == <<pop, nid, nb, n, births0>>

Perms == {f \in [1..N -> 1..N] : \A i, j \in 1..N : i # j => f[i] # f[j]}
Init == /\ births0 \in Perms
        /\ pop = [i \in 1..N |-> [id |-> i, new |-> FALSE, b |-> births0[i]]]
        /\ nid = N + 1 /\ nb = N + 1 /\ n = 0

(* the three outcomes of an attempt *)
Nothing == UNCHANGED <<pop>>
Mutate ==
  /\ \E i \in OldestOf(pop) : pop' = [pop EXCEPT ![i] = [id |-> nid, new |-> TRUE, b |-> nb]]
  /\ nid' = nid + 1 /\ nb' = nb + 1
Cross ==
  /\ \E I \in TwoOldestOf(pop) : \E i \in I : \E j \in I \ {i} :
       pop' = [pop EXCEPT ![i] = [id |-> nid, new |-> TRUE, b |-> nb], ![j] = [id |-> nid + 1, new |-> TRUE, b |-> nb + 1]]
  /\ nid' = nid + 2 /\ nb' = nb + 2
Event ==
  /\ n < MaxEvents /\ n' = n + 1 /\ births0' = births0
  /\ \/ Nothing /\ nid' \in {nid, nid + 1} /\ nb' \in {nb, nb + 1}
     \/ Mutate
     \/ N >= 2 /\ Cross
Next == Event
Spec == Init /\ [][Next]_vars

(* what follows from the ageing rule *)
SizeKept == Len(pop) = N
Unique == \A i, j \in Idx(pop) : i # j => pop[i].id # pop[j].id /\ pop[i].b # pop[j].b
CountersAhead == \A i \in Idx(pop) : pop[i].id < nid /\ pop[i].b < nb
(* survivors of the initial population are always its youngest *)
Ageing ==
  LET old == {i \in Idx(pop) : ~pop[i].new}
      bs == {pop[i].b : i \in old}
  IN bs = {b \in 1..N : b > N - Cardinality(old)}
(* members ever present have distinct identities: newcomers never reuse one *)
StepOK == [][\A i \in Idx(pop') : pop'[i] \notin ToSet(pop) => pop'[i].id >= nid /\ pop'[i].b >= nb]_vars

(* scenarios for the real code: every birth order and every kind of event with its outcome *)
Emit == (SCENARIOS /\ n = 0) => PrintT(<<"SCEN", births0>>)
=============================================================================
