------------------------------ MODULE Terminal ------------------------------
(* Design model of the progress display: cycles end at any pace, the table is *)
(* redrawn at most once per Gap, and always after the last cycle.             *)
(* FORCE off: TLC finds a finished search whose terminal shows an old table.  *)
EXTENDS TermDefs, TLC
CONSTANTS N, Gap, FORCE, EMIT
VARIABLES done, gap, front, shown, word      \* gap: time since the table was drawn
vars == <<done, gap, front, shown, word>>
Init == done = 0 /\ gap = 0 /\ front = 0 /\ shown = -1 /\ word = <<>>
Next ==  /\ done < N
         /\ \E dt \in {0, 1, Gap}, better \in BOOLEAN :
              LET draw == gap + dt >= Gap \/ (FORCE /\ done + 1 = N)
              IN  /\ front' = front + (IF better THEN 1 ELSE 0)
                  /\ shown' = (IF draw THEN front' ELSE shown)
                  /\ gap' = (IF draw THEN 0 ELSE gap + dt)
                  /\ word' = (IF EMIT THEN Append(word, dt) ELSE <<>>)
         /\ done' = done + 1
Spec == Init /\ [][Next]_vars
Current == done = N => shown = front
Behind == shown <= front                                  \* never something that was not found
Fresh == gap < Gap \/ done = N                             \* shown is no older than that
Forward == [][shown' >= shown]_vars
Judged == TRUE
Emit == (EMIT /\ done = N) => PrintT(<<"WORD", word>>)

(* wrapping loses nothing, whatever the room *)
Text(n) == [j \in 1..n |-> 40 + (j % 5)]
ASSUME \A n \in 1..14, room \in 1..6 :
  LET w == Wrap(Text(n), room) IN JoinOK(w) /\ Join(w) = Text(n) /\ \A j \in 1..Len(w) : Len(w[j]) <= room + 3
ASSUME \A n \in 1..9, room \in 1..4, pad \in 0..2 :
  LET head == <<52, 50>> \o Spaces(2 + pad) \o <<49, Dot, 50, 51, 52, 101, 45, 53>> \o Spaces(2)
      w == Wrap(Text(n), room)
      rows == [j \in 1..Len(w) |-> (IF j = 1 THEN head ELSE Spaces(Len(head))) \o w[j]]
  IN  /\ Shows(rows, <<[c |-> 42, m |-> 1234000, e |-> -5, eq |-> Text(n)]>>)
      /\ Shows(rows \o rows, <<[c |-> 42, m |-> 1234000, e |-> -5, eq |-> Text(n)], [c |-> 42, m |-> 1234000, e |-> -5, eq |-> Text(n)]>>)
      /\ ~Shows(rows, <<[c |-> 42, m |-> 1234000, e |-> -5, eq |-> Text(n + 1)]>>)
      /\ ~Shows(rows, <<[c |-> 42, m |-> 1233000, e |-> -5, eq |-> Text(n)]>>)
=============================================================================
