------------------------------ MODULE DataDefs ------------------------------
(* What surrounds the search loop: losses and their derivatives, mini-batches, *)
(* operator selection, the size statistics' window.                            *)
EXTENDS SearchDefs

Abs(v) == IF v < 0 THEN -v ELSE v
Sgn(v) == IF v < 0 THEN -1 ELSE IF v > 0 THEN 1 ELSE 0
Sum(f(_), n) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE f(i) + S(i - 1) IN S(n)
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)

(* ---- losses: residual d/u, an integer over the scale of the kind ----------
   mse, rmse (squared): u^2   mae, eps: u   huber: 2u^2   quantile: 10u   lp: u^p *)
Point(kind, a, d) ==
  CASE kind \in {"mse", "rmse"} -> d * d
    [] kind = "mae"      -> Abs(d)
    [] kind = "huber"    -> IF Abs(d) <= a THEN d * d ELSE a * (2 * Abs(d) - a)
    [] kind = "quantile" -> IF d <= 0 THEN a * Abs(d) ELSE (10 - a) * d
    [] kind = "eps"      -> IF Abs(d) > a THEN Abs(d) - a ELSE 0
    [] kind = "lp"       -> Pow(Abs(d), a)
(* the derivative with respect to the prediction; at a kink, every subgradient *)
Slope(kind, a, d) ==
  CASE kind = "mse"      -> <<2 * d, 2 * d>>
    [] kind = "rmse"     -> <<d, d>>                      \* times the loss itself
    [] kind = "mae"      -> IF d = 0 THEN <<-1, 1>> ELSE <<Sgn(d), Sgn(d)>>
    [] kind = "huber"    -> IF Abs(d) <= a THEN <<d, d>> ELSE <<a * Sgn(d), a * Sgn(d)>>
    [] kind = "quantile" -> IF d = 0 THEN <<-a, 10 - a>> ELSE IF d < 0 THEN <<-a, -a>> ELSE <<10 - a, 10 - a>>
    [] kind = "eps"      -> IF Abs(d) > a THEN <<Sgn(d), Sgn(d)>>
                            ELSE IF Abs(d) < a THEN <<0, 0>>
                            ELSE IF d > 0 THEN <<0, 1>> ELSE IF d < 0 THEN <<-1, 0>> ELSE <<-1, 1>>
    [] kind = "lp"       -> IF a = 1 /\ d = 0 THEN <<-1, 1>> ELSE LET s == a * Pow(Abs(d), a - 1) * Sgn(d) IN <<s, s>>
Total(kind, a, d, w) == Sum(LAMBDA i : w[i] * Point(kind, a, d[i]), Len(d))

(* the losses are convex, non-negative and zero exactly where they should be: the definitions' own sanity *)
Kinds == {"mse", "mae", "huber", "quantile", "eps", "lp"}
ASSUME LossesSane ==
  \A k \in Kinds : \A a \in 1..3 : \A d \in -6..6 :
    /\ Point(k, a, d) >= 0 /\ Point(k, a, 0) = 0
    /\ Point(k, a, d - 1) + Point(k, a, d + 1) >= 2 * Point(k, a, d)
    /\ k # "lp" => LET m == IF k \in {"mse", "huber"} THEN 1 ELSE 0
                   IN /\ Slope(k, a, d)[1] <= Slope(k, a, d)[2] /\ Slope(k, a, d)[2] <= Slope(k, a, d + 1)[1]

(* ---- mini-batches: every column is one row of the full data, parts kept together ---- *)
RowCode(base, row, nf, wt) == [i \in 1..(nf + 1 + (IF wt THEN 1 ELSE 0)) |->
    (base + row) * 1000 + (IF i <= nf THEN i - 1 ELSE IF i = nf + 1 THEN 900 ELSE 901)]
IsRow(col, base, n, nf, wt) == \E row \in 0..(n - 1) : col = RowCode(base, row, nf, wt)

(* ---- operator selection ---- *)
Lower(s) == [i \in 1..Len(s) |-> IF s[i] >= 65 /\ s[i] <= 90 THEN s[i] + 32 ELSE s[i]]
Trim(s) == LET K == {i \in 1..Len(s) : s[i] # 32} IN IF K = {} THEN <<>> ELSE SubSeq(s, MinSet(K), MaxSet(K))
Denotes(tok, o) == LET t == Trim(tok) IN Lower(t) = Lower(o.n) \/ t = o.d \/ (o.x # <<>> /\ t = o.x)
Found(lib, tok, ar) == {i \in 1..Len(lib) : (ar = 0 \/ lib[i].a = ar) /\ Denotes(tok, lib[i])}
(* requests: a sequence of <<token, required arity or 0>> *)
Resolvable(lib, q) == Cardinality(Found(lib, q[1], q[2])) = 1
Resolve(lib, q) == LET o == lib[CHOOSE i \in Found(lib, q[1], q[2]) : TRUE] IN <<o.a, o.i>>
Acceptable(lib, reqs, maxarity) ==
  /\ Len(reqs) > 0
  /\ \A i \in 1..Len(reqs) : Resolvable(lib, reqs[i]) /\ Resolve(lib, reqs[i])[1] <= maxarity
  /\ \A i, j \in 1..Len(reqs) : i # j => Resolve(lib, reqs[i]) # Resolve(lib, reqs[j])
Selection(lib, reqs) == {Resolve(lib, reqs[i]) : i \in 1..Len(reqs)}

(* ---- window of the size statistics; entries in millionths ---- *)
M1 == 1000000
SumS(s) == Sum(LAMBDA i : s[i], Len(s))
Counted(f0, f1, sizes) == \A c \in 1..Len(f0) :
  Abs(f1[c] - f0[c] - M1 * Cardinality({i \in 1..Len(sizes) : sizes[i] = c})) <= 1
Windowed(f1, f2, win) ==
  LET k == Len(f1)
      cap == IF win > k THEN win * M1 ELSE k * M1     \* no entry may fall below one
  IN /\ Len(f2) = k
     /\ IF SumS(f1) <= win * M1 - k THEN f2 = f1
        ELSE /\ \A c \in 1..k : f2[c] <= f1[c] + 1 /\ f2[c] >= M1 - 1
             /\ \A c, d \in 1..k : f1[c] <= f1[d] => f2[c] <= f2[d] + 2
             /\ Abs(SumS(f2) - (IF SumS(f1) < cap THEN SumS(f1) ELSE cap)) <= 1000
Normalised(f2, nf) ==
  LET S == SumS([c \in 1..Len(f2) |-> f2[c] \div 10000])
  IN /\ Len(nf) = Len(f2)
     /\ \A c \in 1..Len(f2) : Abs((nf[c] \div 100) * S - (f2[c] \div 10000) * 10000) <= 2 * S + 10000 * (Len(f2) + 2)
     /\ Abs(SumS(nf) - M1) <= Len(nf)
=============================================================================
