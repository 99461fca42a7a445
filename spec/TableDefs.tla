----------------------------- MODULE TableDefs -----------------------------
(* The tabular front end: column selection, train/validation split, scores.  *)
EXTENDS DataDefs, TLC
BAD == 1000000      \* a cell that is not a number

(* ---- ingestion ---- *)
Rectangular(cells, n) == \A r \in 1..Len(cells) : Len(cells[r]) = n
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == MinSet(S) IN <<m>> \o Sorted(S \ {m})
YCol(n, y) == IF y < 0 THEN n - 1 ELSE y
XCols(n, given, xs, y, w) == IF given THEN Set(xs) ELSE (0..(n - 1)) \ {YCol(n, y), w}
(* columns count from 0; w = -1: no weights *)
Usable(n, nrows, given, xs, y, w) ==
  /\ nrows > 0 /\ n >= 2
  /\ YCol(n, y) < n /\ w < n /\ w # YCol(n, y)
  /\ LET X == XCols(n, given, xs, y, w)
     IN X # {} /\ (\A x \in X : x < n) /\ YCol(n, y) \notin X /\ w \notin X
UsedCols(n, given, xs, y, w) == XCols(n, given, xs, y, w) \cup {YCol(n, y)} \cup (IF w < 0 THEN {} ELSE {w})
Names(hdr, names, cols) == IF hdr THEN [j \in 1..Len(cols) |-> names[cols[j] + 1]]
                           ELSE [j \in 1..Len(cols) |-> "x" \o ToString(j - 1)]
HoldsTable(d, cells, cols, y, w, vn) ==
  LET n == Len(cells) IN
  /\ d.nf = Len(cols) /\ d.nr = n /\ d.xd = <<Len(cols), n>> /\ d.vn = vn
  /\ d.x = [j \in 1..Len(cols) |-> [r \in 1..n |-> cells[r][cols[j] + 1]]]
  /\ d.y = [r \in 1..n |-> cells[r][y + 1]]
  /\ d.hw = (w >= 0) /\ d.w = IF w < 0 THEN <<>> ELSE [r \in 1..n |-> cells[r][w + 1]]

(* ---- split; the share in thousandths ---- *)
Partition(n, train, val) ==
  /\ Len(train) + Len(val) = n
  /\ Set(train) \cup Set(val) = 0..(n - 1)
ShareOK(n, vf, nval) ==
  /\ n > 0 => nval < n
  /\ (vf >= 0 /\ vf <= 900) =>
       \/ 2 * Abs(nval * 1000 - vf * n) <= 1000        \* the nearest whole number of rows
       \/ nval = n - 1 /\ vf * n > nval * 1000          \* ... unless training would be empty
  /\ vf <= 0 => nval = 0
  /\ vf > 900 => 2 * (nval * 1000) + 1000 >= 2 * 900 * n \/ nval = n - 1
PartOf(d, rows, nf, wtd, names) ==
  /\ d.nf = nf /\ d.nr = Len(rows) /\ d.vn = names
  /\ d.x = [j \in 1..nf |-> [i \in 1..Len(rows) |-> rows[i] * 1000 + j - 1]]
  /\ d.y = [i \in 1..Len(rows) |-> rows[i] * 1000 + 900]
  /\ d.hw = wtd /\ d.w = IF wtd THEN [i \in 1..Len(rows) |-> rows[i] * 1000 + 901] ELSE <<>>

(* ---- scores of predictions p for targets y with weights w ---- *)
Sse(y, p, w) == Sum(LAMBDA i : w[i] * (p[i] - y[i]) * (p[i] - y[i]), Len(y))
Sae(y, p, w) == Sum(LAMBDA i : w[i] * Abs(p[i] - y[i]), Len(y))
SumW(w) == Sum(LAMBDA i : w[i], Len(w))
(* SumW times the weighted sum of squares around the weighted mean *)
Sst(y, w) == SumW(w) * Sum(LAMBDA i : w[i] * y[i] * y[i], Len(y))
             - Sum(LAMBDA i : w[i] * y[i], Len(y)) * Sum(LAMBDA i : w[i] * y[i], Len(y))
(* n times the sum of products around the means *)
Cov(a, b) == Len(a) * Sum(LAMBDA i : a[i] * b[i], Len(a)) - Sum(LAMBDA i : a[i], Len(a)) * Sum(LAMBDA i : b[i], Len(a))
AbsErr(y, p) == {Abs(p[i] - y[i]) : i \in 1..Len(y)}

(* the split's arithmetic: a share within limits always leaves both parts as asked *)
ASSUME ShareSane == \A n \in 1..30 : \A vf \in {0, 50, 100, 250, 500, 750, 900} :
  /\ \E v \in 0..n : ShareOK(n, vf, v)
  /\ \A v \in 0..n : ShareOK(n, vf, v) => v < n
(* the unweighted correlation of anything with itself is one, and no score is negative *)
ASSUME ScoresSane == \A y \in [1..3 -> -1..2] : \A w \in [1..3 -> {1, 2}] :
  /\ Sst(y, w) >= 0 /\ Sse(y, y, w) = 0 /\ Sae(y, y, w) = 0
  /\ Sst(y, [i \in 1..3 |-> 1]) = Cov(y, y)
=============================================================================
