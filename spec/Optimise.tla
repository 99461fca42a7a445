------------------------------ MODULE Optimise ------------------------------
(* Design model of constant optimisation: one start from the current          *)
(* constants and one per restart; each start asks the loss (and slope) at      *)
(* points of its choosing, moves only to lower ones, and may end at any        *)
(* question: no finite loss ("x"), no finite slope ("g"), or the limit.        *)
(* Losses are the levels 0..V.  KEEP: a start that ends early still hands over *)
(* what it gained; with KEEP off TLC finds a result worse than a point moved to*)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS V, Starts, Limit, Iters, MaxFaults, MaxLen, KEEP, EMIT
VARIABLES base, best, now, gained, phase, start, calls, iter, tries, faults, word, total
vars == <<base, best, now, gained, phase, start, calls, iter, tries, faults, word, total>>
None == V + 1
Min2(a, b) == IF a < b THEN a ELSE b

Init == /\ base \in 0..V /\ best = base /\ now = None /\ gained = base /\ phase = "begin" /\ start = 1
        /\ calls = 0 /\ iter = 0 /\ tries = 0 /\ faults = 0 /\ word = <<>> /\ total = 0
Say(o) == /\ word' = IF EMIT THEN Append(word, o) ELSE <<>>
          /\ faults' = faults + (IF o = "o" THEN 0 ELSE 1)
          /\ (o # "o" => faults < MaxFaults)
          /\ calls' = calls + 1 /\ total' = total + 1
Finish(v) == /\ best' = Min2(best, v) /\ start' = start + 1 /\ phase' = IF start = Starts THEN "done" ELSE "begin"
             /\ now' = None /\ iter' = 0 /\ tries' = 0
Lost(v) == Finish(IF KEEP THEN v ELSE None)
Begin == /\ phase = "begin"
         /\ \E v \in IF start = 1 THEN {base} ELSE 0..V : \E o \in {"o", "x", "g"} :
              /\ Say(o)
              /\ IF o = "o" THEN /\ now' = v /\ gained' = Min2(gained, v) /\ phase' = "try" /\ UNCHANGED <<best, start, iter, tries>>
                 ELSE /\ gained' = gained /\ Finish(None)
Stop == /\ phase = "try" /\ (iter = Iters \/ calls >= start * Limit \/ now = 0)
        /\ Finish(now) /\ UNCHANGED <<gained, calls, faults, word, total>>
Try == /\ phase = "try" /\ iter < Iters /\ now > 0
       /\ IF calls >= start * Limit
          THEN Lost(now) /\ UNCHANGED <<gained, calls, faults, word, total>>
          ELSE \/ \E v \in 0..(now - 1) : Say("o") /\ now' = v /\ gained' = Min2(gained, v) /\ phase' = "slope" /\ UNCHANGED <<best, start, iter, tries>>
               \/ tries < 2 /\ Say("o") /\ tries' = tries + 1 /\ UNCHANGED <<best, start, iter, now, gained, phase>>
               \/ Say("x") /\ Lost(now) /\ UNCHANGED gained
Slope == /\ phase = "slope"
         /\ \/ Say("o") /\ phase' = "try" /\ iter' = iter + 1 /\ tries' = 0 /\ UNCHANGED <<best, start, now, gained>>
            \/ \E o \in {"x", "g"} : Say(o) /\ Lost(now) /\ UNCHANGED gained
Next == /\ (EMIT => Len(word) < MaxLen)
        /\ Begin \/ Stop \/ Try \/ Slope
        /\ UNCHANGED base
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* the result is as good as every point moved to; so never worse than the start *)
Keeps == phase = "done" => best = gained /\ best <= base
Budget == calls <= start * (Limit + 1) + 1
Ends == <>(phase = "done")
Judged == TRUE
Emit == (EMIT /\ word # <<>> /\ word[Len(word)] # "o") => PrintT(<<"WORD", word>>)
=============================================================================
