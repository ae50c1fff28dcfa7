----------------------------- MODULE ChainTrace ------------------------------
EXTENDS Chain, Units
GInit(s) == ChainInit([s EXCEPT !.seal = SeqSet(@)])
GDone(s, k) == k.at = "idle"
Init == UInit(GInit)
Next == UNext(ChainStep, GDone)
Spec == Init /\ [][Next]_<<t, l, m>>
=============================================================================
