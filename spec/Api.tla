--------------------------------- MODULE Api ---------------------------------
(* Design model of the browser interface: two searches alive at once, each an  *)
(* engine that is stepped one cycle at a time, answering from its own state.   *)
(* The engine's line is abstract: the state after c cycles of search m has a   *)
(* front of Front[(c + m) % 4] points.  Every answer is judged by ApiDefs.     *)
(*   TAIL: a shortened list keeps the last points;  OWN: each instance has its *)
(*   own limit;  STOP: stepping ends with the last cycle.  With any of them    *)
(*   off TLC finds an answer that is not allowed.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, ApiDefs
CONSTANTS Total, MaxLen, TAIL, OWN, STOP, EMIT, Steps, Keeps
VARIABLES eng, keep, ghost, good, word
vars == <<eng, keep, ghost, good, word>>
Front(c, m) == [j \in 1..((c * 2 + m) % 4) |-> m * 100 + c * 10 + j]
Line(m) == [c \in 1..(Total + 1) |-> [evals |-> c * 5, best |-> m * 100 + (c - 1) * 10 + 9, eqs |-> Front(c - 1, m)]]
PtOf == [e \in 1..300 |-> e]
Init == /\ eng = <<0, 0>> /\ keep = <<250, 250>> /\ ghost = <<New, New>> /\ good = TRUE /\ word = <<>>

RECURSIVE Run(_, _)
Run(c, n) == IF n = 0 \/ (STOP /\ c = Total) THEN c ELSE Run(c + 1, n - 1)
Cut(s, n) == IF TAIL THEN LastOf(s, n) ELSE SubSeq(s, 1, Least(n, Len(s)))
At(c, m) == Line(m)[Least(c, Total) + 1]
Call(m, op, a, id, e, kp, out, err) ==
  LET c == [i |-> m, op |-> op, a |-> a, id |-> id, finite |-> TRUE, err |-> err, out |-> out]
      g == Moved(ghost[m], Line(m), c)
  IN /\ eng' = [eng EXCEPT ![m] = e]
     /\ keep' = IF OWN THEN [keep EXCEPT ![m] = kp] ELSE <<kp, kp>>
     /\ ghost' = [ghost EXCEPT ![m] = g]
     /\ good' = (good /\ Answer(g, Line(m), PtOf, m - 1, c))
     /\ word' = IF EMIT THEN Append(word, <<m, op, a>>) ELSE <<>>
Look(m, op, a, id, out, err) == Call(m, op, a, id, eng[m], keep[m], out, err)
Next ==
  /\ Len(word) < MaxLen
  /\ \E m \in 1..2 :
     \/ \E n \in Steps : LET e == Run(eng[m], n) h == At(e, m) IN
          Call(m, "s", n, 0, e, keep[m], [ok |-> TRUE, total |-> Total, cycles |-> e, evals |-> h.evals, best |-> h.best, front |-> Cut(h.eqs, keep[m])], FALSE)
     \/ \E n \in Keeps : Call(m, "k", n, 0, eng[m], n, [ok |-> TRUE], FALSE)
     \/ \E n \in Keeps : Look(m, "b", n, 0, [ok |-> TRUE, eqs |-> Cut(At(eng[m], m).eqs, n)], FALSE)
     \/ Look(m, "f", 0, 0, [ok |-> TRUE, fin |-> eng[m] >= Total], FALSE)
     \/ Look(m, "p", 0, 0, [ok |-> TRUE, same |-> TRUE], FALSE)
     \/ \E a \in 0..5 : \E w \in {"t", "v"} :
          LET h == At(eng[m], m) l == h.eqs
              id == CASE a = 0 -> h.best [] a = 1 /\ l # <<>> -> l[1] [] a = 2 /\ l # <<>> -> l[Len(l)] [] OTHER -> 0
              err == id = 0 \/ (w = "v" /\ m = 1)
          IN Look(m, w, a, id, [ok |-> TRUE, values |-> TRUE, n |-> 1, rows |-> 1, metrics |-> TRUE, loss |-> TRUE], err)
     \/ Look(m, "o", 0, 0, [ok |-> FALSE], TRUE)
     \/ Call(m, "n", 0, 0, 0, 250, [ok |-> TRUE], FALSE)
Judged == good
Bound == \A m \in 1..2 : eng[m] <= Total + 2
Emit == (EMIT /\ Len(word) = MaxLen) => PrintT(<<"WORD", word>>)
=============================================================================
