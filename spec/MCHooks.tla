------------------------------- MODULE MCHooks -------------------------------
(* Every sequence of N operations on the hooks of one set of options.  The    *)
(* sequences are printed, and replayed into the code.                         *)
EXTENDS Hooks, Json
CONSTANT N, KS
VARIABLES h, ops
F == 201 + Len(ops)
Op(o, k, mode) == [op |-> o, i |-> 0, k |-> k, f |-> IF o = "restore" THEN 0 ELSE F, mode |-> mode]
Ops == UNION {{Op("restore", k, "")} \cup
              (IF k = "sort" THEN {Op("tap", k, "desc"), Op("tap", k, "prev-rot"), Op("chain", k, "rot"), Op("chain", k, "rev")}
               ELSE {Op("tap", k, "plain"), Op("tap", k, "prev"), Op("chain", k, "append"), Op("chain", k, "replace")}) : k \in KS}
Init == h = [i \in Insts |-> [k \in Kinds |-> Default]] /\ ops = <<>>
Next == Len(ops) < N /\ \E op \in Ops : h' = Operate(h, op) /\ ops' = Append(ops, op)
Spec == Init /\ [][Next]_<<h, ops>>
\* an operation leaves every other hook as it was
Apart == [][\A i \in Insts, k \in Kinds : LET op == ops'[Len(ops')] IN (i # op.i \/ k # op.k) => h'[i][k] = h[i][k]]_<<h, ops>>
\* what is in force are the functions added since the last one that took over, each once, in the order added
Since(k) == LET Over == {j \in 1..Len(ops) : ops[j].k = k /\ ops[j].op # "chain" /\ ops[j].mode \notin Prev}
                from == IF Over = {} THEN 0 ELSE CHOOSE j \in Over : \A x \in Over : x <= j
                Mine(o) == o.k = k
            IN (IF from = 0 THEN <<0>> ELSE <<>>) \o
               [j \in 1..Len(SelectSeq(SubSeq(ops, IF from = 0 THEN 1 ELSE from, Len(ops)), Mine)) |->
                 SelectSeq(SubSeq(ops, IF from = 0 THEN 1 ELSE from, Len(ops)), Mine)[j].f]
InForce == \A k \in Kinds : [j \in 1..Len(h[0][k]) |-> h[0][k][j].f] = Since(k)
Undone == ops # <<>> /\ ops[Len(ops)].op = "restore" => h[0][ops[Len(ops)].k] = Default
Dump == Len(ops) = N => PrintT("GEN " \o ToJson(ops))
=============================================================================
