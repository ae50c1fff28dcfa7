------------------------------- MODULE MCChain -------------------------------
(* Every sequence of N operations on a chain of links; what a node meets.     *)
EXTENDS Chain, Json
CONSTANT N, Which
Order == << <<6, 3, 2>>, <<5, 4>> >>[Which]
Seal == << {}, {5} >>[Which]
VARIABLES c, ops
Op(o, role) == [op |-> o, role |-> role, l |-> 1 + Len(ops), node |-> 0]
Ops == {Op("decorate", r) : r \in Set(Order)} \cup {Op("unwind", r) : r \in Set(Order) \cup {Anchor}} \cup {Op("swap", 0)}
Apply(x, op) == CASE op.op = "decorate" -> IF Sealed(x) THEN x ELSE Decorate(x, op.role, op.l)
                  [] op.op = "unwind" -> Unwind(x, op.role)
                  [] OTHER -> Swap(x, op.l)
Init == c = [order |-> Order, links |-> <<>>, client |-> 0, seal |-> Seal] /\ ops = <<>>
Next == Len(ops) < N /\ \E op \in Ops : c' = Apply(c, op) /\ ops' = Append(ops, op)
Spec == Init /\ [][Next]_<<c, ops>>
\* at most once each, in the one order, the client last
Once == \A i, j \in 1..Len(Line(c)) : i # j => Line(c)[i] # Line(c)[j]
InOrder == \A i, j \in 1..Len(Line(c)) : i < j => Position(Ordered(c), Line(c)[i]) < Position(Ordered(c), Line(c)[j])
ClientLast == Line(c)[Len(Line(c))] = Anchor
\* whatever the order of the set-up: two chains of the same roles line up alike
Dump == Len(ops) = N => PrintT("GEN " \o ToJson(ops))
=============================================================================
