-------------------------------- MODULE Pool --------------------------------
(* Searches orchestrated concurrently over one work-stealing thread pool.     *)
(* Threads run stacks of frames (an orchestrator that waits executes other    *)
(* jobs on top of itself); jobs sit in per-thread deques or in the injector;  *)
(* an idle thread steals from anyone, but looking for work before blocking is *)
(* only certain to see the thread's own deque. Callers are pool jobs          *)
(* themselves ("in") or threads outside ("out"). Every execution must end     *)
(* with every caller having its answer (C07).                                 *)
(* INPLACE = FALSE: the orchestrator is moved onto a pool worker.             *)
(* YIELD = FALSE: it blocks without helping. CATCH = FALSE: a panic kills the *)
(* task before it reports. These are the defects the design must exclude.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxThreads, MaxSearches, MaxPops, MaxIter, INPLACE, YIELD, CATCH, EMIT

VARIABLES sc,      (* the scenario: threads, where (per search), pops, iters, crash *)
          stack,   (* thread -> frames; pool threads 1..T, outside callers T+1.. *)
          dq,      (* pool thread -> set of jobs; index 0 is the injector *)
          S        (* search -> orchestrator state *)
vars == <<sc, stack, dq, S>>

K == Len(sc.where)
T == sc.T
PoolThreads == 1..T
AllThreads == 1..(T + K)
Orch(s) == [k |-> "orch", s |-> s, n |-> 0]
Task(s, n) == [k |-> "task", s |-> s, n |-> n]

Scenarios ==
  {[T |-> t, where |-> w, pops |-> p, iter |-> i, crash |-> c] :
     t \in 1..MaxThreads, w \in UNION {[1..k -> {"in", "out"}] : k \in 1..MaxSearches},
     p \in 1..MaxPops, i \in 1..MaxIter, c \in 0..(MaxPops * MaxIter)}
(* a caller inside the pool needs a second thread; crash = n: the n-th task of the first search panics *)
Valid(x) == /\ x.crash <= x.pops * x.iter
            /\ (\E s \in 1..Len(x.where) : x.where[s] = "in") => x.T >= 2
            /\ \A s \in 1..(Len(x.where) - 1) : x.where[s] = "out" => x.where[s + 1] = "out"

Workers(x, s) == LET u == IF x.where[s] = "in" THEN x.T - 1 ELSE x.T IN IF u < x.pops THEN u ELSE x.pops

Init ==
  /\ sc \in {x \in Scenarios : Valid(x)}
  /\ S = [s \in 1..Len(sc.where) |-> [pc |-> "new", left |-> 0, it |-> 0, infl |-> 0, chan |-> <<>>, live |-> 0, made |-> 0, out |-> ""]]
  /\ dq = [t \in 0..sc.T |-> IF t = 0 THEN {Orch(s) : s \in {q \in 1..Len(sc.where) : sc.where[q] = "in"}} ELSE {}]
  /\ stack = [t \in 1..(sc.T + Len(sc.where)) |->
                IF t > sc.T /\ sc.where[t - sc.T] = "out" THEN <<Orch(t - sc.T)>> ELSE <<>>]

Top(t) == stack[t][Len(stack[t])]
Push(t, f) == stack' = [stack EXCEPT ![t] = Append(@, f)]
Pop(t) == stack' = [stack EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
Jobs == UNION {dq[t] : t \in 0..T}
TakeJob(t, j) == /\ dq' = [q \in 0..T |-> dq[q] \ {j}] /\ Push(t, j)
(* an idle pool thread runs any job *)
IdleStep(t) == /\ t \in PoolThreads /\ stack[t] = <<>> /\ \E j \in Jobs : TakeJob(t, j)
               /\ UNCHANGED <<sc, S>>

(* a task runs and reports, or panics *)
TaskStep(t) ==
  /\ stack[t] # <<>> /\ Top(t).k = "task"
  /\ LET f == Top(t)
         boom == f.s = 1 /\ sc.crash = f.n
     IN S' = [S EXCEPT ![f.s].live = @ - 1,
                       ![f.s].chan = IF boom /\ ~CATCH THEN @ ELSE Append(@, ~boom)]
  /\ Pop(t) /\ UNCHANGED <<sc, dq>>

Home(t) == IF t \in PoolThreads THEN t ELSE 0
OrchTop(t) == stack[t] # <<>> /\ Top(t).k = "orch"
(* INPLACE: run here; otherwise hand the orchestrator to the pool and wait *)
Begin(t) ==
  /\ OrchTop(t) /\ LET s == Top(t).s IN
     /\ S[s].pc = "new"
     /\ IF INPLACE \/ t \in PoolThreads THEN S' = [S EXCEPT ![s].pc = "iter"] /\ UNCHANGED <<stack, dq>>
        ELSE S' = [S EXCEPT ![s].pc = "iter"] /\ dq' = [dq EXCEPT ![0] = @ \cup {Orch(s)}] /\ Pop(t)
  /\ UNCHANGED sc
Loop(t) ==
  /\ OrchTop(t) /\ LET s == Top(t).s
                       W == Workers(sc, s)
                   IN
     \/ /\ S[s].pc = "iter" /\ S[s].it < sc.iter
        /\ S' = [S EXCEPT ![s].pc = "loop", ![s].it = @ + 1, ![s].left = sc.pops] /\ UNCHANGED <<stack, dq>>
     \/ /\ S[s].pc = "iter" /\ S[s].it = sc.iter
        /\ S' = [S EXCEPT ![s].pc = "drain", ![s].out = "r"] /\ UNCHANGED <<stack, dq>>
     \/ /\ S[s].pc = "loop" /\ S[s].left > 0 /\ S[s].infl < W
        /\ S' = [S EXCEPT ![s].left = @ - 1, ![s].infl = @ + 1, ![s].live = @ + 1, ![s].made = @ + 1]
        /\ dq' = [dq EXCEPT ![Home(t)] = @ \cup {Task(s, S[s].made + 1)}] /\ UNCHANGED stack
     \/ /\ S[s].pc = "loop" /\ S[s].left = 0 /\ S[s].infl = 0
        /\ S' = [S EXCEPT ![s].pc = "iter"] /\ UNCHANGED <<stack, dq>>
     \/ /\ S[s].pc \in {"loop", "block"} /\ S[s].infl > 0 /\ (S[s].infl = W \/ S[s].left = 0) /\ S[s].chan # <<>>
        /\ S' = [S EXCEPT ![s].chan = Tail(@), ![s].infl = @ - 1, ![s].pc = IF Head(S[s].chan) THEN "loop" ELSE "drain",
                          ![s].out = IF Head(S[s].chan) THEN @ ELSE "p"]
        /\ UNCHANGED <<stack, dq>>
     (* nothing received yet: help, or block for good *)
     \/ /\ S[s].pc = "loop" /\ S[s].infl > 0 /\ (S[s].infl = W \/ S[s].left = 0) /\ S[s].chan = <<>>
        /\ \/ YIELD /\ t \in PoolThreads /\ (\E j \in Jobs : TakeJob(t, j)) /\ UNCHANGED S
           \/ /\ ~YIELD \/ t \notin PoolThreads \/ dq[Home(t)] = {}
              /\ S' = [S EXCEPT ![s].pc = "block"] /\ UNCHANGED <<stack, dq>>
  /\ UNCHANGED sc
(* leaving the scope: wait for the remaining tasks, helping if on a pool thread *)
Drain(t) ==
  /\ OrchTop(t) /\ LET s == Top(t).s IN
     /\ S[s].pc = "drain"
     /\ \/ S[s].live = 0 /\ S' = [S EXCEPT ![s].pc = "end"] /\ Pop(t) /\ UNCHANGED dq
        \/ S[s].live > 0 /\ t \in PoolThreads /\ (\E j \in Jobs : TakeJob(t, j)) /\ UNCHANGED S
  /\ UNCHANGED sc

AllDone == \A s \in 1..K : S[s].pc = "end"
Stop == AllDone /\ UNCHANGED vars
Next == (\E t \in AllThreads : IdleStep(t) \/ TaskStep(t) \/ Begin(t) \/ Loop(t) \/ Drain(t)) \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* C07: no execution gets stuck (TLC's deadlock check), and every caller gets the right answer *)
Terminates == <>AllDone
Expected(x, s) == IF s = 1 /\ x.crash > 0 THEN "p" ELSE "r"
Answers == \A s \in 1..K : S[s].pc = "end" => S[s].out = Expected(sc, s)
Emit == (EMIT /\ \A s \in 1..K : S[s].pc = "new" /\ dq = [t \in 0..T |-> IF t = 0 THEN {Orch(q) : q \in {u \in 1..K : sc.where[u] = "in"}} ELSE {}])
        => PrintT(<<"SCEN", sc.T, sc.where, sc.pops, sc.iter, sc.crash>>)
=============================================================================
