----------------------------- MODULE NotifyTrace -----------------------------
EXTENDS Notify, Units
NDone(s, k) == k.st = <<>> /\ k.nav = 2
Init == UInit(NotesInit)
Next == UNext(NotesStep, NDone)
Spec == Init /\ [][Next]_<<t, l, m>>
=============================================================================
