------------------------------- MODULE ExprGen -------------------------------
(* The state machine that builds postfix expressions one node at a time.     *)
(* Every reachable state of stack depth one is a complete expression; TLC    *)
(* prints each, and the harness runs all of them through the real code.      *)
EXTENDS Integers, Sequences, TLC
CONSTANT MaxNodes
Leaves == {<<0, 0, 0>>, <<0, 1, 0>>, <<1, 0, 0>>, <<1, 1, 0>>}
Ops == {<<2, 1, "neg">>, <<2, 2, "sub">>, <<2, 3, "fma">>}
VARIABLES nodes, depth
vars == <<nodes, depth>>

Init == nodes = <<>> /\ depth = 0
PushLeaf == \E l \in Leaves : nodes' = Append(nodes, l) /\ depth' = depth + 1
PushOp   == \E o \in Ops : depth >= o[2] /\ nodes' = Append(nodes, o) /\ depth' = depth + 1 - o[2]
(* enough nodes must remain to bring the stack down to one expression *)
MaxArity == CHOOSE m \in {o[2] : o \in Ops} : \A o \in Ops : o[2] <= m
CanFinish(d, left) == d <= 1 + left * (MaxArity - 1)
Next == /\ Len(nodes) < MaxNodes
        /\ PushLeaf \/ PushOp
        /\ CanFinish(depth', MaxNodes - Len(nodes'))
Spec == Init /\ [][Next]_vars

Complete == depth = 1
Emit == Complete => PrintT(<<"EXPR", nodes>>)
(* Structural facts about what the machine builds, checked on every state *)
DepthOk == depth >= 0 /\ depth <= Len(nodes)
=============================================================================
