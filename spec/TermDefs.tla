------------------------------ MODULE TermDefs ------------------------------
(* The progress display: a table of the Pareto front, one equation after the  *)
(* other, long ones wrapped with "..." and continued below their beginning.   *)
(* Text is a sequence of character codes.                                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Blank == 32
Dot == 46
Digit(ch) == ch \in 48..57
Dots == <<Dot, Dot, Dot>>
MinOf(S) == CHOOSE v \in S : \A u \in S : v <= u
Spaces(n) == [j \in 1..n |-> Blank]

(* ---- writing ---- *)
Wrap(e, room) == LET n == (Len(e) + room - 1) \div room
                 IN  [j \in 1..n |-> SubSeq(e, (j - 1) * room + 1, IF j = n THEN Len(e) ELSE j * room) \o (IF j < n THEN Dots ELSE <<>>)]
(* ---- reading ---- *)
EndsDots(s) == Len(s) > 3 /\ SubSeq(s, Len(s) - 2, Len(s)) = Dots
Cut(s) == IF EndsDots(s) THEN SubSeq(s, 1, Len(s) - 3) ELSE s
Join(parts) == FoldLeft(LAMBDA a, b : a \o Cut(b), <<>>, parts)
JoinOK(parts) == \A j \in 1..Len(parts) : EndsDots(parts[j]) <=> j < Len(parts)

(* first position >= p whose character is (not) blank; Len + 1 if there is none *)
NextInk(s, p) == MinOf({j \in p..Len(s) : s[j] # Blank} \cup {Len(s) + 1})
NextGap(s, p) == MinOf({j \in p..Len(s) : s[j] = Blank} \cup {Len(s) + 1})
Number(s) == FoldLeft(LAMBDA a, ch : 10 * a + (ch - 48), 0, s)
AllDigits(s) == s # <<>> /\ Len(s) < 9 /\ \A j \in 1..Len(s) : Digit(s[j])

(* a loss d.ddde[-]x as thousandths and exponent *)
LossOK(s) == /\ Len(s) >= 7 /\ Digit(s[1]) /\ s[2] = Dot /\ AllDigits(SubSeq(s, 3, 5)) /\ s[6] = 101
             /\ AllDigits(IF s[7] = 45 THEN SubSeq(s, 8, Len(s)) ELSE SubSeq(s, 7, Len(s)))
LossM(s) == Number(<<s[1], s[3], s[4], s[5]>>)
LossE(s) == IF s[7] = 45 THEN -Number(SubSeq(s, 8, Len(s))) ELSE Number(SubSeq(s, 7, Len(s)))
(* m millionths and exponent e, rounded *)
Rounds(lm, le, m, e) == \/ le = e /\ lm * 1000 - m \in -500..500
                        \/ le = e + 1 /\ lm = 1000 /\ m >= 9999500

(* the row where an equation begins: complexity, loss, and the column of the equation *)
Begins(row) == Len(row) > 0 /\ Digit(row[1])
Loss1(row) == NextInk(row, NextGap(row, 1))
Eq1(row) == NextInk(row, NextGap(row, Loss1(row)))
Entry(rows, a, b) ==      \* rows a..b
  LET p == Eq1(rows[a])
      parts == [j \in 1..(b - a + 1) |-> SubSeq(rows[a + j - 1], p, Len(rows[a + j - 1]))]
  IN  [ok |-> /\ AllDigits(SubSeq(rows[a], 1, NextGap(rows[a], 1) - 1))
              /\ LossOK(SubSeq(rows[a], Loss1(rows[a]), NextGap(rows[a], Loss1(rows[a])) - 1))
              /\ \A j \in (a + 1)..b : Len(rows[j]) >= p /\ \A q \in 1..(p - 1) : rows[j][q] = Blank
              /\ JoinOK(parts),
       c |-> SubSeq(rows[a], 1, NextGap(rows[a], 1) - 1),
       loss |-> SubSeq(rows[a], Loss1(rows[a]), NextGap(rows[a], Loss1(rows[a])) - 1),
       eq |-> Join(parts)]
Starts(rows) == SetToSortSeq({j \in 1..Len(rows) : Begins(rows[j])}, LAMBDA a, b : a < b)
(* the table is the front: front is a sequence of [c, m, e, eq] *)
Shows(rows, front) ==
  LET st == Starts(rows) IN
  /\ Len(st) = Len(front) /\ (rows # <<>> => st # <<>> /\ st[1] = 1)
  /\ \A j \in 1..Len(st) :
       LET x == Entry(rows, st[j], IF j = Len(st) THEN Len(rows) ELSE st[j + 1] - 1)
       IN  x.ok /\ Number(x.c) = front[j].c /\ x.eq = front[j].eq /\ Rounds(LossM(x.loss), LossE(x.loss), front[j].m, front[j].e)
=============================================================================
