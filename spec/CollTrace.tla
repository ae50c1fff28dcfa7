------------------------------ MODULE CollTrace ------------------------------
EXTENDS Coll, Units
CDone(s, k) == TRUE
Init == UInit(CollInit)
Next == UNext(CollStep, CDone)
Spec == Init /\ [][Next]_<<t, l, m>>
=============================================================================
