------------------------------- MODULE MCColl --------------------------------
(* Every sequence of N changes of an ordered set, replayed into the code with *)
(* every question asked after each.                                            *)
EXTENDS Coll, Json
CONSTANT N, Which
Order == << <<1, 2, 3>>, <<2, 1, 2, 3>>, <<3, 2>> >>[Which]
Anchor == <<4, 1, 2>>[Which]
VARIABLES mem, ops
P == Places(Order, Anchor)
Op(o, x) == [op |-> o, x |-> x, xs |-> <<>>, i |-> 0, stop |-> 0]
Xs == Set(Order) \cup {Anchor, 9}
Ops == {Op(o, x) : o \in {"insert", "delete"}, x \in Xs}
Apply(mm, op) == IF op.op = "insert" THEN (IF CanInsert(P, Anchor, mm, op.x) THEN mm \cup {op.x} ELSE mm)
                 ELSE IF op.x = Anchor THEN mm ELSE mm \ {op.x}
Init == mem = {Anchor} /\ ops = <<>>
Next == Len(ops) < N /\ \E op \in Ops : mem' = Apply(mem, op) /\ ops' = Append(ops, op)
Spec == Init /\ [][Next]_<<mem, ops>>
\* fixed relative order, unique members, anchor last
It == Items(P, mem)
Unique == \A i, j \in 1..Len(It) : i # j => It[i] # It[j]
AnchorLast == It # <<>> /\ It[Len(It)] = Anchor
Fixed == \A i, j \in 1..Len(It) : i < j => Position(P, It[i]) < Position(P, It[j])
Exact == Set(It) = mem /\ mem \subseteq Set(P)
\* only what was last inserted, rather than deleted, is a member
Last(x) == LET H == {j \in 1..Len(ops) : ops[j].x = x} IN IF H = {} THEN "" ELSE ops[CHOOSE j \in H : \A k \in H : k <= j].op
Members == \A x \in Set(P) \ {Anchor} : (x \in mem) <=> (Last(x) = "insert")
Dump == Len(ops) = N => PrintT("GEN " \o ToJson(ops))
=============================================================================
