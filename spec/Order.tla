------------------------------- MODULE Order ---------------------------------
(***************************************************************************)
(* ORDER: whatever subset of the nodes a walk delivers or announces, it    *)
(* does so in the one pre-order that the sort options define.  The machine *)
(* remembers the position of the last node seen.                           *)
(* Decides C02, and the order part of C14 and C22.                         *)
(***************************************************************************)
EXTENDS Scn

OrderInit == [last |-> 0, desc |-> 0]
OrderDeliver(s, d, o, n) ==
  IF n = 0 \/ n \notin d.met THEN {o}                 \* not this machine's concern
  ELSE IF d.pos[n] > o.last THEN {[o EXCEPT !.last = d.pos[n]]} ELSE {}
OrderDescend(s, d, o, n) ==
  IF n = 0 \/ n \notin d.met THEN {o}
  ELSE IF d.pos[n] > o.desc THEN {[o EXCEPT !.desc = d.pos[n]]} ELSE {}
\* children handed over with a directory come in name order
OrderKids(s, d, n, ch) ==
  n = 0 \/ \A i \in 1..Len(ch) - 1 :
     (ch[i] # 0 /\ ch[i + 1] # 0) => Before(s, ch[i], ch[i + 1])
=============================================================================
