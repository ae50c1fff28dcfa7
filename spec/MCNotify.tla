------------------------------ MODULE MCNotify -------------------------------
(* Every sequence of N operations on the notifications of kinds KS, replayed  *)
(* into the code with a dispatch of every kind after each operation.          *)
EXTENDS Notify, Json
CONSTANT N, KS
VARIABLES c, ops
Op(o, k) == [op |-> o, i |-> 0, k |-> k, f |-> IF o = "on" THEN 1 + Len(ops) ELSE 0, arg |-> 0]
Ops == UNION {{Op("on", k), Op("mute", k), Op("unmute", k)} : k \in KS} \cup {Op("muteall", ""), Op("unmuteall", "")}
Init == c = Controls /\ ops = <<>>
Next == Len(ops) < N /\ \E op \in Ops : c' = Operate(c, op) /\ ops' = Append(ops, op)
Spec == Init /\ [][Next]_<<c, ops>>
\* the audience of a notification is everyone registered, in that order, or no one
InOrder == \A k \in Kinds : LET Mine(o) == o.op = "on" /\ o.k = k
                                who == SelectSeq(ops, Mine)
                            IN Audience(c, 0, k) \in {<<>>, [j \in 1..Len(who) |-> who[j].f]}
\* what is said of one kind has no effect on another, and no effect on other options
Apart == [][LET op == ops'[Len(ops')] IN
             /\ c'[1] = c[1]
             /\ (op.k # "" => \A k \in Kinds \ {op.k} : c'[0][k] = c[0][k])]_<<c, ops>>
AllBack == ops # <<>> /\ ops[Len(ops)].op = "unmuteall" => \A k \in Kinds : Audience(c, 0, k) = c[0][k].hs
AllQuiet == ops # <<>> /\ ops[Len(ops)].op = "muteall" => \A k \in Kinds : Audience(c, 0, k) = <<>>
Dump == Len(ops) = N => PrintT("GEN " \o ToJson(ops))
=============================================================================
