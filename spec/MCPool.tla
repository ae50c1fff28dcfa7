------------------------------- MODULE MCPool --------------------------------
(***************************************************************************)
(* Model checking of the concurrent algorithm (Pool) against what a client *)
(* is promised (PoolRun): all interleavings of navigator, dispatcher,      *)
(* workers, closer and observer, for every scenario of a small universe.   *)
(***************************************************************************)
EXTENDS WalkTrace, Pool
VARIABLE p
vars == <<t, l, m, p>>

MCInit == /\ t \in 1..Len(Raw)
          /\ l = 0
          /\ m = {MInit(S[t], D[t])}
          /\ p = PInit(S[t])
Moved(x) == /\ p' = x[2]
            /\ m' = IF x[1].e = "-" THEN m ELSE UNION {MStep(S[t], D[t], k, x[1]) : k \in m}
MCNext == (\E x \in PoolMoves(S[t], D[t], p, S[t].acts[1]) : Moved(x)) /\ UNCHANGED <<t, l>>
Over == p.nph = "done"
MCSpec == MCInit /\ [][MCNext \/ (Over /\ UNCHANGED vars)]_vars /\ WF_vars(MCNext)

Implied == m # {}
Sound == Accounted(p) /\ Manned(p)
Ends == <>Over
=============================================================================
