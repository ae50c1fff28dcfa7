------------------------------- MODULE MCSetup -------------------------------
(* The set-up machine for every pair of mistakes.                           *)
EXTENDS Setup
VARIABLE r
Combos == {{}} \cup {{f} : f \in Mistakes} \cup {{f, g} : f \in Mistakes, g \in Mistakes}
Init == r \in {Ask(c) : c \in Combos}
\* an error may say anything that is wrong with the phase that found it
Says(x) == UNION {Names[f] : f \in Here(x)}
Next == r' \in Pass(r) \cup Refuse(r, Says(r)) \cup Observe(r) \cup Finish(r)
Spec == Init /\ [][Next]_r /\ WF_r(r' \in Pass(r) \cup Refuse(r, Says(r)) \cup Finish(r))
\* nothing is observable of a request with a mistake
Silent == r.faults # {} => (r.obs = 0 /\ r.st # "done")
\* and one without mistakes is never refused
Fair == r.faults = {} => r.st # "refused"
Settles == <>(r.st # "open")
=============================================================================
