------------------------------- MODULE PoolRun -------------------------------
(***************************************************************************)
(* POOLRUN: the observable life of one concurrent run, as a machine over   *)
(* what a client can see.  It is what Pool.tla (the concurrent algorithm:  *)
(* navigator, job channel, workers, output stream, closing) refines.       *)
(*   c     coverage: which nodes' callbacks have started                   *)
(*   run   callbacks in progress;  fin  callbacks finished (nodes)         *)
(*   outs  nodes for which an output appeared;  ph  how far the run is     *)
(*   off   the run was cancelled: it need not do the rest, but it ends     *)
(* Decides C16.                                                            *)
(***************************************************************************)
EXTENDS Cover

PoolInit(s, d, from, nav) ==
  [c |-> CoverInit(s, d, from), run |-> {}, fin |-> {}, outs |-> {}, ph |-> "open", closed |-> FALSE, nav |-> nav, off |-> FALSE]

PoolStart(s, d, k, n, tok) ==
  IF n = 0 \/ (k.ph \notin {"open", "returned"} /\ ~k.off) \/ Cardinality(k.run) >= s.workers THEN {}
  ELSE {[k EXCEPT !.c = x, !.run = @ \cup {<<n, tok>>}] : x \in CoverDeliver(s, d, k.c, n, "")}
PoolFinish(k, n, tok) ==
  IF <<n, tok>> \notin k.run THEN {} ELSE {[k EXCEPT !.run = @ \ {<<n, tok>>}, !.fin = @ \cup {n}]}
PoolReturned(k) == IF k.ph = "open" THEN {[k EXCEPT !.ph = "returned"]} ELSE {}
\* the caller's wait completes only when all the work is done
PoolWaited(s, d, k) ==
  IF k.ph = "returned" /\ (k.off \/ (k.run = {} /\ CoverComplete(s, d, k.c))) THEN {[k EXCEPT !.ph = "waited"]} ELSE {}
PoolCancel(k) == {[k EXCEPT !.off = TRUE]}
\* what the callback returned comes out with the job; it stops nothing else
OutErr(act) == CASE act \in {"err", "werr"} -> "client" [] act = "" -> "nil" [] OTHER -> act
PoolOutput(s, k, n, err, act) ==
  IF ~s.output \/ n \notin k.fin \/ n \in k.outs \/ k.closed \/ err # OutErr(act) THEN {}
  ELSE {[k EXCEPT !.outs = @ \cup {n}]}
PoolClosed(s, k) == IF s.output /\ ~k.closed THEN {[k EXCEPT !.closed = TRUE]} ELSE {}
\* a run that was cancelled may end without an error only if the navigator could
\* hand in every job: all that may be missing is then with the pool
Afoot(s, d, k) == Cardinality(d.want \ Settled(k.c)) <= s.inp + s.workers + 1
PoolResult(s, d, k, err) ==
  IF k.ph = "waited" /\ (IF k.off THEN err = "canceled" \/ (err = "nil" /\ Afoot(s, d, k)) ELSE err = "nil")
     /\ (s.output => (k.closed /\ k.outs = k.fin))
  THEN {[k EXCEPT !.ph = "over"]} ELSE {}
=============================================================================
