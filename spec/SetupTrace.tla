----------------------------- MODULE SetupTrace ------------------------------
EXTENDS Setup, Units
SInit(s) == SetupInit([faults |-> SeqSet(s.faults)])
SStep(s, k, ev) == SetupStep(s, k, IF ev.e = "result" THEN [ev EXCEPT !.says = SeqSet(@)] ELSE ev)
SDone(s, k) == k.st # "open"
Init == UInit(SInit)
Next == UNext(SStep, SDone)
Spec == Init /\ [][Next]_<<t, l, m>>
=============================================================================
