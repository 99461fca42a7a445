------------------------------ MODULE FormDefs ------------------------------
(* The forms of the browser page (Data, Configure, the iterations box of Run) *)
(* and the initialisation built from them.  Step records as in PageDefs, with *)
(*   data |-> what the Data pane shows, conf |-> what Configure shows.        *)
(* The reference keeps every option as text, the columns as numbers (-1 none),*)
(* x as a set, or AUTO when the engine is to choose.                          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Tables, Defaults, Registry   \* lines of each CSV text (<<>> the header), default options, operators

AUTO == {-1}
Columns == {"x_columns", "y_column", "weights_column", "has_headers"}
Basic == {"cos", "add", "sub", "mul", "div"}
Names(ar) == {Registry[j].name : j \in {q \in 1..Len(Registry) : Registry[q].arity = ar}}
Form0(csv) == [csv |-> csv, head |-> TRUE, y |-> -1, w |-> -1, xs |-> AUTO, o |-> Defaults, ops |-> Basic]
SetOf(q) == {q[j] : j \in 1..Len(q)}
Toggle(S, e) == IF e \in S THEN S \ {e} ELSE S \cup {e}

(* the numeric rows of a text *)
Rows(f) == LET l == Tables[f.csv + 1] IN SelectSeq(IF f.head THEN Tail(l) ELSE l, LAMBDA r : r # <<>>)
NCols(f) == Len(Rows(f)[1])
YOf(f) == IF f.y = -1 THEN NCols(f) - 1 ELSE f.y
XOf(f) == IF f.xs = AUTO THEN (0..(NCols(f) - 1)) \ {YOf(f), f.w} ELSE f.xs
Fits(f) == LET n == NCols(f) IN YOf(f) < n /\ f.w < n /\ f.w # YOf(f) /\ (f.xs = AUTO \/ \A c \in f.xs : c < n /\ c \notin {YOf(f), f.w})

(* parsing chooses the columns that were not chosen, and replaces those the data do not have *)
ParseOK(f, d) == LET n == NCols(f) x == SetOf(d.x) IN
  /\ d.parsed
  /\ IF Fits(f) THEN d.y = YOf(f) /\ d.w = f.w /\ x = XOf(f) \ {d.y, d.w}
     ELSE d.y \in 0..(n - 1) /\ d.w \in -1..(n - 1) /\ d.w # d.y /\ x # {} /\ x \subseteq (0..(n - 1)) \ {d.y, d.w}

AfterF(f, s) ==
  CASE s.a = "text" -> [f EXCEPT !.csv = s.id]
    [] s.a = "head" -> [f EXCEPT !.head = ~f.head]
    [] s.a \in {"file", "parse"} -> LET g == IF s.a = "file" THEN [f EXCEPT !.csv = s.id] ELSE f
                                    IN [g EXCEPT !.y = s.data.y, !.w = s.data.w, !.xs = SetOf(s.data.x)]
    [] s.a = "ycol" -> LET w == IF f.w = s.id THEN -1 ELSE f.w IN [f EXCEPT !.y = s.id, !.w = w, !.xs = XOf(f) \ {s.id, w}]
    [] s.a = "wcol" -> [f EXCEPT !.w = s.id, !.xs = XOf(f) \ {YOf(f), s.id}]
    [] s.a = "xcol" -> [f EXCEPT !.xs = Toggle(XOf(f), s.id)]
    [] s.a = "field" -> [f EXCEPT !.o[s.name] = s.value]
    [] s.a = "op" -> [f EXCEPT !.ops = Toggle(f.ops, s.name)]
    [] OTHER -> f

DataOK(f, d) == d.on =>
  /\ d.csv = f.csv /\ d.head = f.head
  /\ d.parsed => /\ d.rows = Rows(f) /\ d.ncols = NCols(f)          \* the preview is of this text
                 /\ d.y = YOf(f) /\ d.w = f.w
                 /\ SetOf(d.x) = (XOf(f) \ {d.y, d.w}) \cap (0..(NCols(f) - 1))
                 /\ SetOf(d.off) = {d.y, d.w} \cap (0..(NCols(f) - 1))
                 /\ d.vf = f.o["validation_fraction"]
ConfOK(f, c) == c.on =>
  /\ SetOf(c.listed) = Names(1) \cup Names(2)
  /\ SetOf(c.ops) = f.ops
  /\ \A key \in DOMAIN c.o : key \in DOMAIN f.o /\ c.o[key] = f.o[key]
SentOK(f, p) ==
  /\ p.csv = f.csv /\ p.head = f.head /\ p.wc = f.w
  /\ p.y = f.y \/ p.y = YOf(f)                                      \* "none" means the last column
  /\ (IF p.xs = <<-1>> THEN f.xs = AUTO \/ f.xs = (0..(NCols(f) - 1)) \ {YOf(f), f.w} ELSE SetOf(p.xs) = XOf(f))
  /\ \A j \in 1..3 : Len(p.ops[j]) = Cardinality(SetOf(p.ops[j])) /\ SetOf(p.ops[j]) = f.ops \cap Names(j)
  /\ DOMAIN p.o = DOMAIN f.o /\ \A key \in DOMAIN f.o : key \in Columns \/ p.o[key] = f.o[key]
FormOK(f, s) ==
  LET g == IF s.a = "file" THEN [f EXCEPT !.csv = s.id] ELSE f
      n == AfterF(f, s)
  IN /\ s.a \in {"file", "parse"} => ParseOK(g, s.data)
     /\ DataOK(n, s.data) /\ ConfOK(n, s.conf)
     /\ s.view.run => s.view.iters = n.o["niterations"]
     /\ \A j \in 1..Len(s.posts) : s.posts[j].t = "init" => SentOK(n, s.posts[j])
     /\ s.a = "init" => \E j \in 1..Len(s.posts) : s.posts[j].t = "init"
=============================================================================
