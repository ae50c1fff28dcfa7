-------------------------------- MODULE Pool ---------------------------------
(***************************************************************************)
(* POOL: the algorithm of a concurrent run, which PoolRun is the view of.  *)
(* The navigator walks the tree as ever (Walk), but where a sequential one *)
(* would call the client it puts a job on a bounded channel.  A dispatcher *)
(* takes jobs off it and gives each to a worker as soon as one is free; a  *)
(* worker calls the client and passes on what it returned, if outputs were *)
(* asked for.  When the walk is over the navigator closes the channel,     *)
(* waits until no job is pending, releases the workers and returns; then   *)
(* the dispatcher has ended, the output channel is closed, and the         *)
(* caller's wait is over.                                                  *)
(*   w      the walk;  nph  where the navigator (later: the caller) is     *)
(*   hand   the job the navigator is sending (0: none)                     *)
(*   ch     the job channel;  shut  whether it is closed                   *)
(*   disp   the job the dispatcher holds (0: none, -1: it has ended)       *)
(*   busy   jobs with a worker, as <<n, stage>>: got run ret respond       *)
(*   pend   the number of jobs not yet done with;  gone  workers released  *)
(*   och    the output channel;  oshut  whether it is closed               *)
(*   off    the run was cancelled: the navigator stops where it cannot send *)
(*          at once, or goes on sending; the dispatcher ends at some point; *)
(*          nobody waits for jobs, nor for the outputs                     *)
(*   rd     the output the observer holds (0: none, -1: it has ended)      *)
(* MCPool checks that every behaviour is one that PoolRun allows, that it  *)
(* cannot get stuck and that it ends.                                      *)
(***************************************************************************)
EXTENDS Walk

Willing(s) == [i \in 1..s.n |-> ""]      \* what the callback answers does not concern the walk
PInit(s) == [w |-> WalkInit(s), nph |-> "walk", hand |-> 0, ch |-> <<>>, shut |-> FALSE, disp |-> 0, busy |-> {},
             pend |-> 0, gone |-> FALSE, och |-> <<>>, oshut |-> FALSE, rd |-> 0, off |-> FALSE]

\* how the walk may go on up to the next delivery or to its end
RECURSIVE Onward(_, _, _)
Onward(s, d, w) ==
  UNION {IF x[1].e \in {"invoke", "result"} THEN {x} ELSE Onward(s, d, x[2]) : x \in Moves(s, d, w, Willing(s))}

Quietly(S) == {<<Hush, p>> : p \in S}
Navigator(s, d, p) ==
  CASE p.nph = "walk" -> {<<Hush, IF x[1].e = "invoke" THEN [p EXCEPT !.w = x[2], !.nph = "send", !.hand = x[1].n, !.pend = @ + 1]
                                  ELSE [p EXCEPT !.w = x[2], !.nph = "close"]>> : x \in Onward(s, d, p.w)}
    [] p.nph = "send" ->
         Quietly((IF Len(p.ch) < s.inp THEN {[p EXCEPT !.ch = Append(@, p.hand), !.hand = 0, !.nph = "walk"]} ELSE {})
                 \cup (IF s.inp = 0 /\ p.disp = 0 THEN {[p EXCEPT !.disp = p.hand, !.hand = 0, !.nph = "walk"]} ELSE {})
                 \cup (IF p.off THEN {[p EXCEPT !.w = Abandon(@, "canceled"), !.hand = 0, !.pend = @ - 1, !.nph = "walk"]} ELSE {}))
    [] p.nph = "close" -> {<<Hush, [p EXCEPT !.shut = TRUE, !.nph = "drain"]>>}
    [] p.nph = "drain" -> IF p.pend = 0 \/ p.off THEN {<<Hush, [p EXCEPT !.gone = TRUE, !.nph = "back"]>>} ELSE {}
    [] p.nph = "back" -> {<<[e |-> "returned"], [p EXCEPT !.nph = "wait"]>>}
    [] p.nph = "wait" -> IF p.disp = 0 - 1 /\ (s.output => p.oshut) THEN {<<[e |-> "waited"], [p EXCEPT !.nph = "join"]>>} ELSE {}
    [] p.nph = "join" -> IF s.output => p.rd = 0 - 1 THEN {<<[e |-> "result", err |-> p.w.why], [p EXCEPT !.nph = "done"]>>} ELSE {}
    [] OTHER -> {}

Dispatcher(s, p) ==
  CASE p.disp = 0 -> Quietly(IF p.ch # <<>> THEN {[p EXCEPT !.disp = Head(p.ch), !.ch = Tail(@)]}
                             ELSE IF p.shut THEN {[p EXCEPT !.disp = 0 - 1]} ELSE {})
                    \cup Quietly(IF p.off THEN {[p EXCEPT !.disp = 0 - 1]} ELSE {})
    [] p.disp > 0 -> Quietly(IF p.gone THEN {[p EXCEPT !.disp = 0]}          \* rejected: it is too late
                             ELSE IF Cardinality(p.busy) < s.workers THEN {[p EXCEPT !.disp = 0, !.busy = @ \cup {<<p.disp, "got">>}]}
                             ELSE {})
    [] OTHER -> {}

To(p, b, stage) == [p EXCEPT !.busy = (@ \ {b}) \cup {<<b[1], stage>>}]
Off(p, b) == [p EXCEPT !.busy = @ \ {b}]
Worker(s, p, b) ==
  CASE b[2] = "got" -> {<<[e |-> "start", n |-> b[1], k |-> b[1]], To(p, b, "run")>>}
    [] b[2] = "run" -> {<<[e |-> "finish", n |-> b[1], k |-> b[1]], To(p, b, "ret")>>}
    [] b[2] = "ret" -> {<<Hush, IF s.output THEN [To(p, b, "respond") EXCEPT !.pend = @ - 1] ELSE [Off(p, b) EXCEPT !.pend = @ - 1]>>}
    [] b[2] = "respond" ->
         Quietly((IF Len(p.och) < s.outsize THEN {[Off(p, b) EXCEPT !.och = Append(@, b[1])]} ELSE {})
                 \cup (IF s.outsize = 0 /\ p.rd = 0 THEN {[Off(p, b) EXCEPT !.rd = b[1]]} ELSE {}))

\* closes the outputs once the workers have been released and none is left
Closer(s, p) ==
  IF s.output /\ p.disp = 0 - 1 /\ p.gone /\ p.busy = {} /\ ~p.oshut THEN {<<Hush, [p EXCEPT !.oshut = TRUE]>>} ELSE {}

OutOf(act) == CASE act \in {"err", "werr"} -> "client" [] act = "" -> "nil" [] OTHER -> act
Observer(s, p, act) ==
  CASE ~s.output -> {}
    [] p.rd > 0 -> {<<[e |-> "output", n |-> p.rd, err |-> OutOf(act[p.rd])], [p EXCEPT !.rd = 0]>>}
    [] p.rd = 0 /\ p.och # <<>> -> {<<Hush, [p EXCEPT !.rd = Head(p.och), !.och = Tail(@)]>>}
    [] p.rd = 0 /\ p.oshut -> {<<[e |-> "outclosed"], [p EXCEPT !.rd = 0 - 1]>>}
    [] OTHER -> {}

\* the client gives up
Cancel(s, p) == IF s.cancel /\ ~p.off /\ p.nph # "done" THEN {<<[e |-> "cancel"], [p EXCEPT !.off = TRUE]>>} ELSE {}

PoolMoves(s, d, p, act) ==
  Cancel(s, p) \cup
  Navigator(s, d, p) \cup Dispatcher(s, p) \cup Closer(s, p) \cup Observer(s, p, act)
    \cup UNION {Worker(s, p, b) : b \in p.busy}

\* every job that is pending is somewhere, and nowhere else
Accounted(p) == p.off \/ p.pend = Len(p.ch) + (IF p.hand = 0 THEN 0 ELSE 1) + (IF p.disp > 0 THEN 1 ELSE 0)
                         + Cardinality({b \in p.busy : b[2] # "respond"})
\* no worker is sent away while a job needs one
Manned(p) == p.gone /\ ~p.off => p.ch = <<>> /\ p.disp <= 0 /\ p.hand = 0
=============================================================================
