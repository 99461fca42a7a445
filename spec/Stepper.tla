------------------------------ MODULE Stepper ------------------------------
(* The stepped engine as its caller sees it: Step(n) runs min(n, remaining)  *)
(* cycles and returns that number. Source of the chunkings replayed in the   *)
(* real engine; every chunking must amount to the same search (C08).         *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Total, Sizes, MaxCalls
VARIABLES completed, calls, reported
vars == <<completed, calls, reported>>
MinOf(a, b) == IF a < b THEN a ELSE b
Ran(n, before, total) == MinOf(n, total - before)

Init == completed = 0 /\ calls = <<>> /\ reported = 0
Step(n) == /\ Len(calls) < MaxCalls
           /\ (Len(calls) > 0 /\ completed = Total) => n = 1     (* one call past the end *)
           /\ ~(Len(calls) > 1 /\ completed = Total /\ calls[Len(calls)] = 1)
           /\ completed' = completed + Ran(n, completed, Total) /\ reported' = reported + Ran(n, completed, Total)
           /\ calls' = Append(calls, n)
Next == \E n \in Sizes : Step(n)
Spec == Init /\ [][Next]_vars
Counted == reported = completed /\ completed <= Total
Emit == completed = Total => PrintT(<<"STEPS", calls>>)
=============================================================================
