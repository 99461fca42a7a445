-------------------------------- MODULE Form --------------------------------
(* Design model of the Data pane's store: the text, the options' columns and *)
(* the rows parsed from the text.  Every edit is observed as on the real     *)
(* page and judged by FormDefs.                                              *)
(*   DROP: parsed rows go away with the text (or header row) they were made  *)
(*         from;  FIT: columns that the data do not have are not kept;       *)
(*   SHOW: the boxes show the columns the engine will choose.                *)
(* With any of them off (the original code) TLC finds the defect.            *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Facts == JsonDeserialize(IOEnv.TRACE_FILE)
Tables == Facts.tables
Defaults == Facts.defaults
Registry == Facts.registry
INSTANCE FormDefs
CONSTANTS Texts, MaxLen, DROP, FIT, SHOW, EMIT
VARIABLES st,    \* csv, head, y, w, xs as stored (-1, AUTO: none), parsed: the rows shown (<<>>: none)
          frm, good, word
vars == <<st, frm, good, word>>
Init == /\ \E v \in Texts : st = [csv |-> v, head |-> TRUE, y |-> -1, w |-> -1, xs |-> AUTO, parsed |-> <<>>] /\ frm = Form0(v) /\ word = IF EMIT THEN <<<<"", v>>>> ELSE <<>>
        /\ good = TRUE

RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE a \in S : \A b \in S : a <= b IN <<m>> \o Asc(S \ {m})
Wide(s) == Len(s.parsed[1])
Y(s) == IF s.y = -1 THEN Wide(s) - 1 ELSE s.y
X(s) == IF s.xs = AUTO THEN (IF SHOW THEN (0..(Wide(s) - 1)) \ {Y(s), s.w} ELSE {}) ELSE s.xs
Data(s) ==
  LET all == 0..(Wide(s) - 1) off == {Y(s), s.w} IN
  IF s.parsed = <<>> THEN [on |-> TRUE, csv |-> s.csv, head |-> s.head, parsed |-> FALSE]
  ELSE [on |-> TRUE, csv |-> s.csv, head |-> s.head, parsed |-> TRUE, rows |-> s.parsed, ncols |-> Wide(s), y |-> Y(s), w |-> s.w,
        x |-> Asc((X(s) \ off) \cap all), off |-> Asc(off \cap all), vf |-> Defaults["validation_fraction"]]
Sent(s) == [t |-> "init", csv |-> s.csv, head |-> s.head, y |-> s.y, wc |-> s.w, xs |-> IF s.xs = AUTO THEN <<-1>> ELSE Asc(s.xs)]
SentColumns(f, p) ==
  /\ p.csv = f.csv /\ p.head = f.head /\ p.wc = f.w /\ (p.y = f.y \/ p.y = YOf(f))
  /\ (IF p.xs = <<-1>> THEN f.xs = AUTO \/ f.xs = (0..(NCols(f) - 1)) \ {YOf(f), f.w} ELSE SetOf(p.xs) = XOf(f))

Parse(s) ==
  LET r == Rows(s) n == Len(r[1])
      y == IF s.y = -1 THEN n - 1 ELSE s.y
      bad == y >= n \/ s.w = y \/ s.w >= n \/ (s.xs # AUTO /\ \E c \in s.xs : c >= n \/ c = y \/ c = s.w)
      z == IF FIT /\ bad THEN [s EXCEPT !.y = n - 1, !.w = -1, !.xs = AUTO] ELSE [s EXCEPT !.y = y]
  IN [z EXCEPT !.parsed = r, !.xs = IF z.xs = AUTO THEN (0..(n - 1)) \ {z.y, z.w} ELSE z.xs]
Drop(s) == IF DROP THEN [s EXCEPT !.parsed = <<>>] ELSE s

Observe(ch, a, id, s) ==
  LET o == [a |-> a, id |-> id, data |-> Data(s)]
      g == IF a = "file" THEN [frm EXCEPT !.csv = id] ELSE frm
      n == AfterF(frm, o)
  IN /\ st' = s /\ frm' = n
     /\ good' = (good /\ (a \in {"file", "parse"} => ParseOK(g, o.data)) /\ DataOK(n, o.data) /\ SentColumns(n, Sent(s)))
     /\ word' = IF EMIT THEN Append(word, <<ch, id>>) ELSE word
Shown == st.parsed # <<>>
Next ==
  /\ Len(word) < MaxLen
  /\ \/ \E v \in Texts : v # st.csv /\ Observe("e", "text", v, Drop([st EXCEPT !.csv = v]))
     \/ \E v \in Texts : Observe("f", "file", v, Parse([st EXCEPT !.csv = v]))
     \/ Observe("h", "head", -1, Drop([st EXCEPT !.head = ~st.head]))
     \/ Observe("q", "parse", -1, Parse(st))
     \/ Observe("I", "init", -1, IF Shown THEN st ELSE [st EXCEPT !.parsed = Rows(st)])   \* and back to the Data pane
     \/ Shown /\ \E c \in 0..(Wide(st) - 1) :
          \/ LET w == IF st.w = c THEN -1 ELSE st.w IN Observe("y", "ycol", c, [st EXCEPT !.y = c, !.w = w, !.xs = X(st) \ {c, w}])
          \/ c # Y(st) /\ Observe("W", "wcol", c, [st EXCEPT !.w = c, !.xs = X(st) \ {Y(st), c}])
          \/ c \notin {Y(st), st.w} /\ Observe("x", "xcol", c, [st EXCEPT !.xs = Toggle(X(st), c)])
     \/ Shown /\ st.w # -1 /\ Observe("W", "wcol", -1, [st EXCEPT !.w = -1, !.xs = X(st) \ {Y(st)}])
Judged == good
(* what is shown is of the text that is there *)
Fresh == Shown => st.parsed = Rows(st)
Emit == (EMIT /\ Len(word) = MaxLen) => PrintT(<<"WORD", word>>)
=============================================================================
