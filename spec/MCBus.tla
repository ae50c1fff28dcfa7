-------------------------------- MODULE MCBus --------------------------------
(* Every sequence of N operations on a bus, replayed into the code with every *)
(* topic emitted on after each operation.                                      *)
EXTENDS Bus, Json
CONSTANT N
VARIABLES b, ops
Ts == {"a", "a.x"}
Hs == {[k |-> "k1", m |-> "^a"], [k |-> "k1", m |-> "x$"], [k |-> "k2", m |-> ""], [k |-> "k3", m |-> "^a$"]}
Op(o, ts, k, m) == [op |-> o, ts |-> ts, k |-> k, m |-> m, v |-> 1 + Len(ops), d |-> 0, tx |-> "", src |-> "", id |-> "", at |-> FALSE]
Ops == {Op("regtopics", <<t>>, "", "") : t \in Ts} \cup {Op("deregtopics", <<t>>, "", "") : t \in Ts}
       \cup {Op("reghandler", <<>>, h.k, h.m) : h \in Hs} \cup {Op("dereghandler", <<>>, k, "") : k \in {"k1", "k2", "k3"}}
Init == b = Empty /\ ops = <<>>
Next == Len(ops) < N /\ \E op \in Ops : b' = Operate(b, op) /\ ops' = Append(ops, op)
Spec == Init /\ [][Next]_<<b, ops>>
\* one relation, seen from either side
Both == \A t \in Ts, k \in {"k1", "k2", "k3"} : (k \in Subscribers(b, t)) <=> (t \in Subscriptions(b, k))
\* an operation on a handler has no effect on who else is subscribed; one on a topic none on another topic
Apart == [][LET op == ops'[Len(ops')] IN
             /\ op.k # "" => \A t \in Ts : Subscribers(b', t) \ {op.k} = Subscribers(b, t) \ {op.k}
             /\ op.ts # <<>> => \A t \in Ts \ Set(op.ts) : Subscribers(b', t) = Subscribers(b, t)]_<<b, ops>>
\* the order in which topics and handlers are registered makes no difference
Dump == Len(ops) = N => PrintT("GEN " \o ToJson(ops))
=============================================================================
