-------------------------------- MODULE Tree --------------------------------
(* What a sequence of nodes means as a tree: the stack reading of Expr.tla   *)
(* against the grammar, prefix walks, and constant slots. Every sequence up   *)
(* to MaxLen is a state; TLC prints them for the real code.                   *)
EXTENDS TreeDefs, TLC
CONSTANTS MaxLen, KIND, EMIT
VARIABLES word
vars == <<word>>
Symbols == IF KIND = "shapes" THEN {<<0, 0, 0>>, <<2, 0, 0>>, <<2, 1, 0>>, <<2, 2, 0>>, <<2, 3, 0>>}
           ELSE {<<0, 0, 0>>, <<1, 0, 0>>, <<1, 1, 0>>, <<1, 2, 0>>, <<2, 2, 0>>}
Init == word = <<>>
Next == Len(word) < MaxLen /\ \E s \in Symbols : word' = Append(word, s)
Spec == Init /\ [][Next]_vars

(* the grammar: a tree is a leaf or as many trees as the operator takes, and the operator *)
RECURSIVE Forest(_, _)
Forest(c, n) ==
  IF n < c THEN {}
  ELSE IF c = 1 THEN (IF n = 1 THEN {<<s>> : s \in {t \in Symbols : ~IsOp(t)}}
                      ELSE UNION {{Append(f, o) : f \in Forest(o[2], n - 1)} : o \in {t \in Symbols : IsOp(t) /\ t[2] > 0}})
  ELSE UNION {{f \o t : f \in Forest(c - 1, m), t \in Forest(1, n - m)} : m \in 1..(n - 1)}
Language == UNION {Forest(1, n) : n \in 1..MaxLen}
Grammar == WellFormed(word) <=> word \in Language
Slices == WellFormed(word) => LET inf == Info(word).inf IN
            \A j \in 1..Len(word) : WellFormed(SubSeq(word, inf[j].st, j)) /\ Len(Prefix(word)) = Len(word)
                                    /\ Prefix(SubSeq(word, inf[j].st, j))[1] = word[j]
(* reading a prefix walk backwards gives a postfix order whose arguments are swapped: walking twice comes back *)
Twice == WellFormed(word) => LET p == Reverse(Prefix(word)) IN WellFormed(p) /\ Reverse(Prefix(p)) = word
Slots == LET vals == <<7, 8, 9>>
             x == Compress(word, vals)
             y == Compress(x.n, x.c)
         IN  /\ Values(word, vals) = Values(x.n, x.c) /\ SameSharing(word, x.n)
             /\ {s \in 0..9 : \E j \in 1..Len(x.n) : x.n[j][1] = 1 /\ x.n[j][2] = s} = 0..(Len(x.c) - 1)
             /\ y = x
Emit == EMIT => PrintT(<<"TREE", word>>)
=============================================================================
