------------------------------- MODULE MCWalk --------------------------------
(***************************************************************************)
(* Model checking of the navigation algorithm (Walk) against the property  *)
(* machines.  Every behaviour of Walk, for every scenario of a universe    *)
(* (all small trees and the options a property turns on), is fed to the    *)
(* machine that states the property (Aspect): it must never refuse an      *)
(* event, so the algorithm implies the property.  The same universe is run *)
(* through the real code and validated by WalkTrace.                       *)
(*   t   the scenario          w   the walk                                *)
(*   m   the set of states the property machine may be in                  *)
(***************************************************************************)
EXTENDS WalkTrace
VARIABLE w
vars == <<t, l, m, w>>

\* the event as the recorder would have written it down
Recorded(s, d, x) ==
  [e |-> x.e, h |-> 1, n |-> IF "n" \in DOMAIN x THEN x.n ELSE 0,
   ch |-> IF "ch" \in DOMAIN x THEN x.ch ELSE <<>>,
   dir |-> IF x.e = "invoke" THEN s.dir[x.n] ELSE FALSE,
   d |-> CASE x.e = "invoke" -> d.depth[x.n] [] x.e = "wake" -> "rise" [] x.e = "sleep" -> "rest" [] OTHER -> 0,
   nm |-> IF x.e = "invoke" THEN s.str[x.n] ELSE "",
   sub |-> IF x.e = "invoke" THEN d.sub[x.n] ELSE "",
   sc |-> IF x.e = "invoke" THEN SetToSeq(d.scope[x.n]) ELSE <<>>,
   err |-> IF "err" \in DOMAIN x THEN x.err ELSE "nil",
   m |-> IF "m" \in DOMAIN x THEN x.m ELSE NoCounts,
   from |-> IF "from" \in DOMAIN x THEN x.from ELSE 0,
   named |-> x.e = "result" /\ x.err = "saved",
   to |-> IF x.e = "result" /\ x.err = "saved" THEN "file" ELSE "",
   ct |-> IF x.e = "ask" THEN d.has[x.n] ELSE <<>>,
   cd |-> IF x.e = "ask" THEN SelectSeq(d.has[x.n], LAMBDA k : s.dir[k]) ELSE <<>>,
   cf |-> IF x.e = "ask" THEN SelectSeq(d.has[x.n], LAMBDA k : ~s.dir[k]) ELSE <<>>,
   strategy |-> IF "strategy" \in DOMAIN x THEN x.strategy ELSE "",
   root |-> TRUE, noresult |-> FALSE, done |-> TRUE, timeok |-> TRUE,
   choices |-> <<>>, sinks |-> SetToSeq(Sunk(s)), early |-> 0, misses |-> 0]

\* another session can follow
More(s) == w.st = "over" /\ w.at # 0 /\ w.nav < Len(s.acts)

MCInit == /\ t \in 1..Len(Raw)
          /\ l = 0
          /\ m = {MInit(S[t], D[t])}
          /\ w = WalkInit(S[t])
Sees(x) == m' = UNION {MStep(S[t], D[t], k, Recorded(S[t], D[t], x)) : k \in m}
Moved == \E x \in Moves(S[t], D[t], w, S[t].acts[w.nav]) :
           /\ w' = x[2]
           /\ IF Seeable(S[t], w, x[1]) THEN Sees(x[1]) /\ l' = l + 1
              ELSE UNCHANGED <<m, l>>
Again == /\ More(S[t])
         /\ w' = WalkResume(S[t], w, w.at, S[t].strats[w.nav])
         /\ Sees([e |-> "resume", from |-> w.at, strategy |-> S[t].strats[w.nav]])
         /\ l' = l + 1
MCNext == (Moved \/ Again) /\ t' = t
Over == w.st = "over" /\ ~More(S[t])
MCSpec == MCInit /\ [][MCNext \/ (Over /\ UNCHANGED vars)]_vars /\ WF_vars(MCNext)

\* the property machine accepts everything that the algorithm does
Implied == m # {}
\* the frames are a path down the tree, no deeper than allowed
Path == /\ \A i \in 1..Len(w.stack) - 1 : S[t].par[w.stack[i + 1].n] = w.stack[i].n
        /\ (w.stack # <<>>) => w.stack[1].n = 1
        /\ Limit(S[t]) # 0 => Len(w.stack) <= Limit(S[t]) + 1
\* what was abandoned is not taken up again
Quits == w.quit => \A i \in 1..Len(w.stack) : w.stack[i].ph = "leave"
Ends == <>Over
=============================================================================
