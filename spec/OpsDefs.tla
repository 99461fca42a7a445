------------------------------ MODULE OpsDefs -------------------------------
(* Operator sets as their authors declare them, and what a declaration means:
   the identifiers, the metadata with its defaults, the tokens that select an
   operator, the values, the derivatives and the printed form of expressions. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANT SALT   \* shifts the generated declarations

(* An operator is b + w[1]*a1 + ... + w[n]*an + p*(a1*...*an); n is its arity.
   An optional field is a sequence of length 0 or 1. *)
Op(name, mark, w, p, b, disp, infix, comm, assoc, cx, order) ==
  [name |-> name, mark |-> mark, w |-> w, p |-> p, b |-> b, display |-> disp, infix |-> infix, commutative |-> comm,
   associative |-> assoc, complexity |-> cx, order |-> order]
Opt(f, v) == IF f THEN <<v>> ELSE <<>>
Bit(c, j) == (c \div (2 ^ j)) % 2 = 1

Low == <<"a","b","c","d","e","f","g","h">>
Up == <<"A","B","C","D","E","F","G","H">>
Pre == <<"un","bin","ter","quad">>
PreUp == <<"Un","Bin","Ter","Quad">>
Infixes == <<"&","@","<+>","~>","%%","o+","||","^^">>

(* the c-th declaration of an arity: the bits of c say which optional fields are given *)
Gen(a, c, salt) ==
  LET s == c + 7 * (salt + SALT) + 13 * a
      x == Low[c \div 8 + 1]  y == Low[(c % 8) + 1]
      snake == (s % 2 = 0)
      under == IF snake THEN "_" ELSE ""
      last == IF snake THEN Up[(c % 8) + 1] ELSE y
  IN  Op(Pre[a] \o x \o under \o y, PreUp[a] \o x \o last,
         [j \in 1..a |-> ((s + j * j + (c \div (j + 1))) % 3) - 1], (s \div 2) % 2, (s % 5) - 2,
         Opt(Bit(c, 0), "D" \o Pre[a] \o x \o y \o (IF s % 3 = 0 THEN "?" ELSE "")),
         Opt(Bit(c, 1), Infixes[(c % 8) + 1] \o Low[a] \o x),
         Opt(Bit(c, 2), (s \div 3) % 2 = 0), Opt(Bit(c, 3), (s \div 5) % 2 = 0),
         Opt(Bit(c, 4), <<2, 7, 0, 65535, 1, 3>>[(s % 6) + 1]), s)
Plain(name, mark, w, p, b, infix, cx) == Op(name, mark, w, p, b, <<>>, infix, <<>>, <<>>, cx, 0)

Group(a, os) == [arity |-> a, ops |-> os]
Codes(n) == [j \in 1..n |-> j - 1]
Set(name, syntax, ty, groups) == [name |-> name, syntax |-> syntax, ty |-> ty, groups |-> groups]
GenSet(name, syntax, ty, salt, plan) ==
  Set(name, syntax, ty, [g \in 1..Len(plan) |-> Group(plan[g][1], [j \in 1..Len(plan[g][2]) |-> Gen(plan[g][1], plan[g][2][j], salt)])])

Builtin(name, mark, w, p, infix, both) == Op(name, mark, w, p, 0, infix, infix, Opt(both, TRUE), Opt(both, TRUE), <<>>, 0)

Sets == <<
  GenSet("LegacyAll", "legacy", "f64", 1, <<<<1, <<0, 3, 12, 16, 21, 31>>>>, <<2, Codes(32)>>, <<3, <<1, 2, 4, 8, 16, 31>>>>, <<4, <<0, 31>>>>>>),
  GenSet("DslAll", "dsl", "f64", 2, <<<<1, <<31, 0, 5, 10, 17, 2>>>>, <<2, Codes(32)>>, <<3, <<31, 30, 7, 11, 0>>>>, <<4, <<21, 10>>>>>>),
  GenSet("LegacyOut", "legacy", "f32", 3, <<<<3, <<9, 22>>>>, <<1, <<7, 24, 0>>>>>>),
  GenSet("DslOne", "dsl", "f32", 4, <<<<2, <<19, 0, 12>>>>>>),
  GenSet("DslMany", "dsl", "f64", 5, <<<<4, <<2, 16>>>>, <<2, <<0, 2, 3, 18>>>>, <<1, <<26>>>>, <<3, <<18>>>>>>),
  \* the set of the README (with a polynomial for exp)
  Set("CustomOps", "legacy", "f64", <<
    Group(1, <<Plain("lift", "Lift", <<2>>, 1, 0, <<>>, <<>>), Plain("cube", "Cube", <<3>>, 0, 1, <<>>, <<>>)>>),
    Group(2, <<Plain("add", "Add", <<1, 1>>, 0, 0, <<>>, <<>>), Plain("sub", "Sub", <<1, 0 - 1>>, 0, 0, <<"-">>, <<2>>)>>)>>),
  \* tokens that more than one operator answers to
  Set("Clash", "legacy", "f64", <<
    Group(1, <<Op("twin", "Twin", <<2>>, 0, 1, <<"T">>, <<"-">>, <<>>, <<>>, <<>>, 3),
               Op("tWin", "TWin", <<0 - 1>>, 0, 2, <<"t">>, <<>>, <<TRUE>>, <<>>, <<4>>, 9),
               Op("solo", "Solo", <<1>>, 1, 0, <<"T">>, <<"!">>, <<>>, <<FALSE>>, <<>>, 5)>>),
    Group(2, <<Op("minus", "Minus", <<1, 0 - 1>>, 0, 0, <<"solo">>, <<"-">>, <<>>, <<>>, <<3>>, 1),
               Op("twiN", "TwiN", <<1, 2>>, 1, 0, <<"twain">>, <<>>, <<FALSE>>, <<TRUE>>, <<>>, 2),
               Op("other", "Other", <<2, 2>>, 1, 1, <<"OTHER">>, <<"!">>, <<TRUE>>, <<>>, <<>>, 6)>>)>>),
  \* arithmetic, in an order of its own
  Set("Arith", "dsl", "f64", <<
    Group(2, <<Plain("times", "Times", <<0, 0>>, 1, 0, <<"*">>, <<>>), Plain("less", "Less", <<1, 0 - 1>>, 0, 0, <<"-">>, <<3>>),
               Plain("plus", "Plus", <<1, 1>>, 0, 0, <<"+">>, <<2>>)>>),
    Group(1, <<Plain("opp", "Opp", <<0 - 1>>, 0, 0, <<"-">>, <<>>), Plain("next", "Next", <<1>>, 0, 1, <<"+">>, <<5>>)>>),
    Group(3, <<Plain("sum", "Sum", <<1, 1, 1>>, 0, 0, <<"+">>, <<>>), Plain("span", "Span", <<1, 0 - 1, 1>>, 0, 1, <<"-">>, <<>>),
               Plain("vol", "Vol", <<0, 0, 1>>, 1, 0, <<"*">>, <<>>)>>)>>),
  \* built-in operators, chosen and ordered by the caller
  Set("Chosen", "opset", "f64", <<
    Group(2, <<Builtin("sub", "Sub", <<1, 0 - 1>>, 0, <<"-">>, FALSE), Builtin("mul", "Mul", <<0, 0>>, 1, <<"*">>, TRUE),
               Builtin("add", "Add", <<1, 1>>, 0, <<"+">>, TRUE)>>),
    Group(1, <<Builtin("identity", "Identity", <<1>>, 0, <<>>, FALSE), Builtin("neg", "Neg", <<0 - 1>>, 0, <<"-">>, FALSE)>>)>>),
  Set("Fewer", "opset", "f32", <<Group(1, <<Builtin("neg", "Neg", <<0 - 1>>, 0, <<"-">>, FALSE)>>)>>)
>>

(* --- what a declaration means --- *)
FindSet(name) == Sets[CHOOSE j \in 1..Len(Sets) : Sets[j].name = name]
MaxArity(s) == CHOOSE a \in {s.groups[g].arity : g \in 1..Len(s.groups)} : \A g \in 1..Len(s.groups) : s.groups[g].arity <= a
OpsOf(s, a) == IF \E g \in 1..Len(s.groups) : s.groups[g].arity = a
               THEN s.groups[CHOOSE g \in 1..Len(s.groups) : s.groups[g].arity = a].ops ELSE <<>>
Exists(s, a, d) == d < Len(OpsOf(s, a))
The(s, a, d) == OpsOf(s, a)[d + 1]
Or(f, v) == IF f = <<>> THEN v ELSE f[1]
Meta(s, a, d) ==
  LET o == The(s, a, d)
  IN  [arity |-> a, id |-> d, name |-> o.name, display |-> Or(o.display, o.name), infix |-> o.infix,
       commutative |-> Or(o.commutative, FALSE), associative |-> Or(o.associative, FALSE), complexity |-> Or(o.complexity, 1)]
Nobody == [name |-> "unknown_op", display |-> "unknown_op", infix |-> <<>>, commutative |-> FALSE, associative |-> FALSE, complexity |-> 0]

(* a token is <<text without outer blanks, text in lower case>> *)
Answers(s, a, d, tok, lows) ==
  LET m == Meta(s, a, d) IN tok[2] = lows[m.name] \/ tok[1] = m.display \/ m.infix = <<tok[1]>>
IdsOf(s, a) == [j \in 1..Len(OpsOf(s, a)) |-> j - 1]
OfArity(s, a, tok, lows) == LET is == SelectSeq(IdsOf(s, a), LAMBDA d : Answers(s, a, d, tok, lows)) IN [j \in 1..Len(is) |-> <<a, is[j]>>]
Arities(s) == [a \in 1..MaxArity(s) |-> a]
All(s, tok, lows) == FoldLeft(LAMBDA acc, a : acc \o OfArity(s, a, tok, lows), <<>>, Arities(s))
Names(s, found) == [j \in 1..Len(found) |-> The(s, found[j][1], found[j][2]).name]
Verdict(s, tok, found) ==
  IF found = <<>> THEN [r |-> "unknown", token |-> tok[1], op |-> <<>>, who |-> <<>>]
  ELSE IF Len(found) = 1 THEN [r |-> "ok", token |-> "", op |-> found[1], who |-> <<>>]
  ELSE [r |-> "ambiguous", token |-> tok[1], op |-> <<>>, who |-> Names(s, found)]

(* choosing the operators of a search: tokens one after the other, the first refusal counts *)
Choose(s, dmax, asked, lows) ==
  LET step(acc, q) ==
        IF acc.r # "ok" THEN acc
        ELSE LET found == IF q.arity = 0 THEN All(s, q.tok, lows) ELSE OfArity(s, q.arity, q.tok, lows)
                 v == Verdict(s, q.tok, found)
             IN  IF v.r # "ok" THEN [r |-> v.r, ops |-> <<>>]
                 ELSE IF v.op[1] > dmax THEN [r |-> "too large", ops |-> <<>>]
                 ELSE IF \E j \in 1..Len(acc.ops) : acc.ops[j] = v.op THEN [r |-> "duplicate", ops |-> <<>>]
                 ELSE [r |-> "ok", ops |-> Append(acc.ops, v.op)]
  IN  IF asked = <<>> THEN [r |-> "empty", ops |-> <<>>] ELSE FoldLeft(step, [r |-> "ok", ops |-> <<>>], asked)
ByArity(ops, dmax) == [a \in 1..dmax |-> LET m == SelectSeq(ops, LAMBDA o : o[1] = a) IN [j \in 1..Len(m) |-> m[j][2]]]

(* values and derivatives; a dual is <<value, gradient>> *)
Prod(as) == FoldLeft(LAMBDA x, y : x * y, 1, as)
Value(o, as) == FoldLeft(LAMBDA x, j : x + o.w[j] * as[j], o.b + o.p * Prod(as), [j \in 1..Len(as) |-> j])
Partial(o, as, j) == o.w[j] + o.p * Prod([m \in 1..Len(as) |-> IF m = j THEN 1 ELSE as[m]])
Dual(s, nodes, row, consts) ==
  LET nf == Len(row)  nd == nf + Len(consts)
      leaf(v, d) == <<v, [m \in 1..nd |-> IF m = d THEN 1 ELSE 0]>>
      step(st, n) ==
        IF n[1] = 0 THEN Append(st, leaf(row[n[2] + 1], n[2] + 1))
        ELSE IF n[1] = 1 THEN Append(st, leaf(consts[n[2] + 1], nf + n[2] + 1))
        ELSE LET a == n[2]  o == The(s, a, n[3])  kids == SubSeq(st, Len(st) - a + 1, Len(st))
                 as == [j \in 1..a |-> kids[j][1]]
             IN  Append(SubSeq(st, 1, Len(st) - a),
                        <<Value(o, as), [m \in 1..nd |-> FoldLeft(LAMBDA x, j : x + Partial(o, as, j) * kids[j][2][m], 0, [j \in 1..a |-> j])]>>)
  IN  FoldLeft(step, <<>>, nodes)[1]

(* the printed form; outer brackets are kept apart so that a surrounding call can leave them away *)
Written(s, nodes, consts, pretty) ==
  LET step(st, n) ==
        IF n[1] = 0 THEN Append(st, <<"x" \o ToString(n[2]), FALSE>>)
        ELSE IF n[1] = 1 THEN Append(st, <<ToString(consts[n[2] + 1]), FALSE>>)
        ELSE LET a == n[2]  m == Meta(s, a, n[3])  kids == SubSeq(st, Len(st) - a + 1, Len(st))
                 inf == m.infix # <<>> /\ a > 1
                 shown == IF pretty THEN m.display ELSE Or(m.infix, m.name)
                 arg(j) == IF inf /\ kids[j][2] THEN "(" \o kids[j][1] \o ")" ELSE kids[j][1]
                 sep == IF inf THEN " " \o shown \o " " ELSE ", "
                 body == FoldLeft(LAMBDA x, j : x \o (IF j = 1 THEN "" ELSE sep) \o arg(j), "", [j \in 1..a |-> j])
             IN  Append(SubSeq(st, 1, Len(st) - a), <<IF inf THEN body ELSE shown \o "(" \o body \o ")", inf>>)
  IN  FoldLeft(step, <<>>, nodes)[1][1]

(* the size of an expression as a search counts it *)
Size(s, nodes, over) ==
  LET cost(n) == IF n[1] # 2 THEN 1
                 ELSE IF \E j \in 1..Len(over) : over[j][1] = n[2] /\ over[j][2] = n[3]
                      THEN over[CHOOSE j \in 1..Len(over) : over[j][1] = n[2] /\ over[j][2] = n[3]][3]
                      ELSE Meta(s, n[2], n[3]).complexity
  IN  FoldLeft(LAMBDA x, n : x + cost(n), 0, nodes)
=============================================================================
