------------------------------- MODULE BusTrace ------------------------------
EXTENDS Bus, Units
BDone(s, k) == k.st = <<>>
Init == UInit(BusInit)
Next == UNext(BusStep, BDone)
Spec == Init /\ [][Next]_<<t, l, m>>
=============================================================================
