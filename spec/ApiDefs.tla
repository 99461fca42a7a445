------------------------------- MODULE ApiDefs -------------------------------
(* The browser interface (WasmSearch): what each call may answer.              *)
(* A search is a line of states H[0..N], one per cycle; calls never change it, *)
(* they only move along it (step) or look at it.  An instance is               *)
(*   [at |-> cycles done, keep |-> how many front points a snapshot lists].    *)
EXTENDS Integers, Sequences, FiniteSets

Least(a, b) == IF a < b THEN a ELSE b
LastOf(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
SetOf(s) == {s[j] : j \in 1..Len(s)}
New == [at |-> 0, keep |-> 250]

(* H[c + 1] is the state after c cycles: evals, best, front, each an index *)
Cycles(H) == Len(H) - 1
Moved(s, H, c) ==
  CASE c.op = "s" -> [s EXCEPT !.at = Least(s.at + Least(c.a, Cycles(H)), Cycles(H))]
    [] c.op = "k" -> [s EXCEPT !.keep = c.a]
    [] c.op = "n" -> New
    [] OTHER -> s

Points(front, ptOf) == [j \in 1..Len(front) |-> ptOf[front[j]]]
(* an answer to c, given that s is the state after it *)
Answer(s, H, ptOf, val, c) ==
  LET h == H[s.at + 1]
      here == SetOf(h.eqs) \cup {h.best}
      o == c.out
  IN CASE c.op = "s" -> /\ ~c.err /\ o.ok
                        /\ o.total = Cycles(H) /\ o.cycles = s.at
                        /\ o.evals = h.evals /\ o.best = h.best
                        /\ o.front = LastOf(Points(h.eqs, ptOf), s.keep)
       [] c.op = "b" -> ~c.err /\ o.ok /\ o.eqs = LastOf(h.eqs, c.a)
       [] c.op = "f" -> ~c.err /\ o.ok /\ o.fin = (s.at = Cycles(H))
       [] c.op = "p" -> ~c.err /\ o.ok /\ o.same
       [] c.op \in {"k", "n"} -> ~c.err
       [] c.op = "o" -> c.err                                       \* no such part
       [] c.op = "v" /\ val = 0 -> c.err                            \* no validation rows
       [] OTHER -> IF c.id = 0 THEN c.err                           \* no such member
                   ELSE /\ (c.id \in here /\ c.finite) => ~c.err
                        /\ ~c.err => c.finite /\ o.ok /\ o.values /\ o.n = o.rows /\ o.metrics /\ o.loss

(* the line itself *)
LineOK(H, ptOf) ==
  /\ \A j \in 1..Len(H) : /\ H[j].ok /\ H[j].cycles = j - 1 /\ H[j].total = Cycles(H)
                          /\ H[j].front = Points(H[j].eqs, ptOf)
  /\ \A j \in 2..Len(H) : H[j].evals >= H[j - 1].evals

(* ---- what is accepted ---- *)
Accept(c) ==
  /\ c.typed /\ c.loss /\ c.ops /\ c.numeric /\ ~c.ragged
  /\ c.rows > 0 /\ c.cols >= 2
  /\ c.y < c.cols /\ c.w < c.cols /\ c.w # c.y
  /\ c.xs # <<>> /\ \A j \in 1..Len(c.xs) : c.xs[j] < c.cols /\ c.xs[j] \notin {c.y, c.w}
NewOK(c) == ~c.trap /\ c.ok = Accept(c)

(* ---- the lists ---- *)
ListsOK(c) ==
  /\ c.defaults = "object" /\ c.core = "object"                     \* what `{...defaults}` copies
  /\ c.missing = <<>> /\ c.agree /\ c.weights = 14
  /\ \A j \in 1..Len(c.same) : c.same[j]                            \* spelling the defaults out changes nothing
  /\ \A j \in 1..Len(c.none) : c.none[j]
  /\ ~c.dup /\ c.shapes /\ c.listed = <<>>                            \* nothing usable is left out
  /\ \A j \in 1..Len(c.usable) : c.usable[j]
=============================================================================
