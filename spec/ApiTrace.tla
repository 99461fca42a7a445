------------------------------ MODULE ApiTrace ------------------------------
(* Calls made to the real browser build, judged call by call. *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC, ApiDefs
Cases == JsonDeserialize(IOEnv.TRACE_FILE).cases
NCH == 64
VARIABLES k, i, j, inst, ok
vars == <<k, i, j, inst, ok>>
Case == Cases[k + i * NCH]
There == k + i * NCH <= Len(Cases)
Start == <<New, New>>
TraceInit == k \in 1..NCH /\ i = 0 /\ j = 0 /\ inst = Start /\ ok = TRUE
Onward == i' = i + 1 /\ j' = 0 /\ inst' = Start
TraceNext ==
  /\ ok /\ There /\ k' = k
  /\ CASE Case.kind = "new"   -> ok' = NewOK(Case) /\ Onward
       [] Case.kind = "lists" -> ok' = ListsOK(Case) /\ Onward
       [] j = 0 -> /\ ok' = (Case.bad = "" /\ \A q \in 1..2 : LineOK(Case.refs[q], Case.ptOf))
                   /\ j' = 1 /\ i' = i /\ inst' = inst
       [] j <= Len(Case.calls) ->
            LET c == Case.calls[j]
                s == Moved(inst[c.i], Case.refs[c.i], c)
            IN /\ ok' = (~c.trap /\ Answer(s, Case.refs[c.i], Case.ptOf, Case.val[c.i], c))
               /\ inst' = [inst EXCEPT ![c.i] = s]
               /\ j' = j + 1 /\ i' = i
       [] OTHER -> ok' = TRUE /\ Onward
Holds == ok
Before == IF ok \/ j > 0 THEN k + i * NCH ELSE k + (i - 1) * NCH   \* the case a failure belongs to
Shown == IF Before > Len(Cases) THEN <<>> ELSE LET c == Cases[Before] IN IF c.kind = "run" THEN [opts |-> c.opts, bad |-> c.bad] ELSE c
Alias == [k |-> k, i |-> i, j |-> j, ok |-> ok, inst |-> inst, case |-> Shown,
          call |-> IF ~ok /\ j > 1 THEN Cases[Before].calls[j - 1] ELSE <<>>]
=============================================================================
