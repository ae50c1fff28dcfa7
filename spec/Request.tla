------------------------------ MODULE Request --------------------------------
(***************************************************************************)
(* REQUEST: what becomes of the request itself, apart from the nodes that  *)
(* are delivered.                                                          *)
(*  - options chosen conditionally (IfOption, IfOptionF, IfElseOptionF):   *)
(*    the chosen one is made and applied, the other is neither applied nor *)
(*    (for those made on demand) even made                                 *)
(*  - the filters handed back to the client (FilterOptions.Sink): one for  *)
(*    each filter asked for, with its source, description and scope,       *)
(*    before the first delivery, and it accepts every node and child       *)
(*    delivered, and says rightly whether it applies to the node           *)
(***************************************************************************)
EXTENDS Scn

\* c: [h  the helper, c  the condition, mt/mf  how often each alternative was
\*     made, ut/uf  how often it was applied]
ChoiceOk(c) ==
  LET lazy == c.h # "if"
  IN IF c.c THEN c.ut = 1 /\ c.uf = 0 /\ (lazy => c.mt >= 1 /\ c.mf = 0)
     ELSE c.ut = 0 /\ (lazy => c.mt = 0) /\ (IF c.h = "ifelse" THEN c.uf = 1 /\ c.mf >= 1 ELSE c.uf = 0)
ChoicesOk(ev) == \A i \in 1..Len(ev.choices) : ChoiceOk(ev.choices[i])

AllScopes == <<"tree", "top", "leaf", "intermediate", "file", "directory">>
ScopeSet(f) == IF Has(f.scope, "all") THEN SeqSet(AllScopes) ELSE SeqSet(f.scope)
Scopes(f) == LET set == CASE f.type = "poly" -> ((ScopeSet(f.file) \cup {"file"}) \ {"directory"})
                                                \cup ((ScopeSet(f.dir) \cup {"directory"}) \ {"file"})
                          [] f.type = "globex" -> {"file"}     \* implied
                          [] f.scope = <<>> -> SeqSet(AllScopes)
                          [] OTHER -> ScopeSet(f)
             IN SelectSeq(AllScopes, LAMBDA x : x \in set)
NodeSunk(f) ==
  IF f.type \in {"none", "custom"} THEN {}
  ELSE {[k |-> "node", src |-> IF f.type = "poly" THEN f.file.txt \o "##" \o f.dir.txt ELSE f.txt,
         desc |-> IF f.type = "poly" THEN "" ELSE "d:" \o f.type, sc |-> Scopes(f)]}
ChildSunk(f) == IF f.type = "none" THEN {} ELSE {[k |-> "child", src |-> f.txt, desc |-> "child", sc |-> <<>>]}
Sunk(s) == IF s.sink THEN NodeSunk(s.filter) \cup ChildSunk(s.child) ELSE {}
SunkOk(s, ev) == /\ SeqSet(ev.sinks) = Sunk(s)
                 /\ Len(ev.sinks) = Cardinality(Sunk(s))
                 /\ ev.early = 0
                 /\ ev.misses = 0
=============================================================================
