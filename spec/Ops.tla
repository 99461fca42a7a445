-------------------------------- MODULE Ops ---------------------------------
(* The declarations themselves: every one is legal, and choosing operators from
   them, one token after the other, only ever yields distinct operators that the
   set has.  Emit hands the declarations to the code generator. *)
EXTENDS OpsDefs, Json, IOUtils
CONSTANTS MaxAsked, EMIT
VARIABLES at, picked, refused
vars == <<at, picked, refused>>

S == Sets[at]
Ids(s) == UNION {{<<a, d>> : d \in 0..(Len(OpsOf(s, a)) - 1)} : a \in 1..MaxArity(s)}
ASSUME \A j \in 1..Len(Sets) :
  LET s == Sets[j] IN
  /\ \A g \in 1..Len(s.groups) : \A o \in 1..Len(s.groups[g].ops) : Len(s.groups[g].ops[o].w) = s.groups[g].arity
  /\ Cardinality({s.groups[g].arity : g \in 1..Len(s.groups)}) = Len(s.groups)
  /\ Cardinality({The(s, x[1], x[2]).mark : x \in Ids(s)}) = Cardinality(Ids(s))
  /\ Cardinality({The(s, x[1], x[2]).name : x \in Ids(s)}) = Cardinality(Ids(s))
ASSUME ~EMIT \/ JsonSerialize(IOEnv.DECLS, [sets |-> Sets])

(* lower-case forms are only needed for the one set with tokens in several cases *)
Lows(s) == [m \in {The(s, x[1], x[2]).name : x \in Ids(s)} |->
             IF m \in {"twin", "tWin", "twiN"} THEN "twin" ELSE m]
Tokens(s) == UNION {LET m == Meta(s, x[1], x[2])
                    IN {<<m.name, Lows(s)[m.name]>>, <<m.display, "(no name)">>} \cup {<<m.infix[j], "(no name)">> : j \in 1..Len(m.infix)} : x \in Ids(s)}
             \cup {<<"nobody", "nobody">>}
Init == at \in 1..Len(Sets) /\ picked = <<>> /\ refused = "ok"
Ask == /\ Len(picked) < MaxAsked /\ refused = "ok" /\ Cardinality(Ids(S)) < 12
       /\ \E tok \in Tokens(S), a \in 0..MaxArity(S) :
            LET v == Verdict(S, tok, IF a = 0 THEN All(S, tok, Lows(S)) ELSE OfArity(S, a, tok, Lows(S)))
            IN  IF v.r = "ok" /\ ~\E j \in 1..Len(picked) : picked[j] = v.op
                THEN picked' = Append(picked, v.op) /\ refused' = "ok"
                ELSE picked' = picked /\ refused' = IF v.r = "ok" THEN "duplicate" ELSE v.r
       /\ at' = at
Next == Ask
Spec == Init /\ [][Next]_vars
Distinct == /\ \A j \in 1..Len(picked) : picked[j] \in Ids(S)
            /\ \A j, m \in 1..Len(picked) : picked[j] = picked[m] => j = m
(* a name selects its operator unless another name of the set differs only in case or is its display *)
Reachable == \A x \in Ids(S) :
  LET n == The(S, x[1], x[2]).name  tok == <<n, Lows(S)[n]>> IN
  (\A y \in Ids(S) : y = x \/ ~Answers(S, y[1], y[2], tok, Lows(S))) <=> Verdict(S, tok, All(S, tok, Lows(S))).r = "ok"
(* the derivative of the declared value is the declared partial: exact differences of a multilinear function *)
Slopes == \A x \in Ids(S) : \A as \in {[j \in 1..x[1] |-> 2], [j \in 1..x[1] |-> j - 2], [j \in 1..x[1] |-> 1 - j]} :
  LET o == The(S, x[1], x[2]) IN
  \A j \in 1..x[1] : Value(o, [as EXCEPT ![j] = @ + 1]) - Value(o, as) = Partial(o, as, j)
=============================================================================
