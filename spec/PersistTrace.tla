---------------------------- MODULE PersistTrace -----------------------------
EXTENDS Persist, Units
PDone(s, k) == TRUE
Init == UInit(PInit)
Next == UNext(PStep, PDone)
Spec == Init /\ [][Next]_<<t, l, m>>
=============================================================================
