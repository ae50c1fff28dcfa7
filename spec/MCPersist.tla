------------------------------ MODULE MCPersist ------------------------------
(* Every sequence of N saves, accidents and removals on two files, replayed  *)
(* into the code with both files loaded after each step.                      *)
EXTENDS Persist, Json
CONSTANT N
VARIABLES fs, ops, last, whole
Files == {"f", "g"}
Vals == {"plain", "rich"}
Ops == {[op |-> "save", f |-> f, v |-> v, fault |-> x] : f \in Files, v \in Vals, x \in {"none", "refuse", "torn"}}
       \cup {[op |-> o, f |-> f, v |-> "", fault |-> ""] : f \in Files, o \in {"damage", "remove"}}
Operate(op) == CASE op.op = "save" -> Saved(fs, op.f, op.v, op.v, op.fault)
                 [] op.op = "damage" -> Damaged(fs, op.f)
                 [] OTHER -> Removed(fs, op.f)
\* history: the last value saved whole in each file, and whether it has been left alone since
Init == fs = <<>> /\ ops = <<>> /\ last = [f \in Files |-> "none"] /\ whole = [f \in Files |-> FALSE]
Next == Len(ops) < N /\ \E op \in Ops :
  /\ fs' = Operate(op) /\ ops' = Append(ops, op)
  /\ last' = IF op.op = "save" /\ op.fault = "none" THEN [last EXCEPT ![op.f] = op.v] ELSE last
  /\ whole' = CASE op.op = "save" /\ op.fault = "none" -> [whole EXCEPT ![op.f] = TRUE]
                [] op.op = "save" /\ op.fault = "refuse" -> whole
                [] OTHER -> [whole EXCEPT ![op.f] = FALSE]
Spec == Init /\ [][Next]_<<fs, ops, last, whole>>
\* what loads is the last value saved there, and nothing that was since harmed loads
NoInvention == \A f \in Files : Loads(fs, f) => whole[f] /\ At(fs, f).o = last[f] /\ At(fs, f).a = last[f]
NoLoss == \A f \in Files : whole[f] => Loads(fs, f)
\* one file's history is no concern of another
Apart == [][LET op == ops'[Len(ops')] IN \A f \in Files \ {op.f} : At(fs', f) = At(fs, f)]_<<fs, ops, last, whole>>
Dump == Len(ops) = N => PrintT("GEN " \o ToJson(ops))
=============================================================================
