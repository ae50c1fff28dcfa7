----------------------------- MODULE HooksTrace ------------------------------
EXTENDS Hooks, Units
HDone(s, k) == ~k.asked /\ k.nav = -1
Init == UInit(HooksInit)
Next == UNext(HooksStep, HDone)
Spec == Init /\ [][Next]_<<t, l, m>>
=============================================================================
