------------------------------- MODULE Window --------------------------------
(***************************************************************************)
(* WINDOW: hibernation.  The machine steps along the selected nodes in     *)
(* visit order (pos is the last one accounted for) and keeps the state     *)
(*   dormant -> awake -> retired                                           *)
(* A node that is not announced, delivered or slept on must be explained:  *)
(* dormant nodes do not satisfy the wake condition, awake nodes are        *)
(* delivered unless another rule (a filter) excludes them.  Decides C10.   *)
(***************************************************************************)
EXTENDS Scn

\* at: last node announced by descend; woke/slept: the node that caused it
WinInit(s) == [st |-> IF s.hib.wake.type = "none" THEN "awake" ELSE "dormant",
               pos |-> 0, at |-> 0, woke |-> 0, slept |-> 0]

\* the selected nodes strictly between two positions of the visit order
Between(d, a, b) == {m \in d.sel : d.pos[m] > a /\ d.pos[m] < b}
HasWake(s) == s.hib.wake.type # "none"
HasSleep(s) == s.hib.sleep.type # "none"
Quiet(s, d, w, b) ==       \* nothing was to be reported up to position b
  \A m \in Between(d, w.pos, b) :
     CASE w.st = "dormant" -> ~d.wakes[m]
       [] w.st = "awake" -> m \notin d.want /\ ~(HasSleep(s) /\ d.sleeps[m])
       [] OTHER -> TRUE
Step(w, p) == [w EXCEPT !.pos = p]

\* the node that an announcement is about: the next one whose condition holds
Cause(d, w, P(_)) ==
  LET C == {m \in d.sel : d.pos[m] > w.pos /\ P(m)}
  IN IF C = {} THEN 0 ELSE CHOOSE m \in C : \A k \in C : d.pos[m] <= d.pos[k]

WinWake(s, d, w) ==
  LET n == Cause(d, w, LAMBDA m : d.wakes[m])
  IN IF w.st # "dormant" \/ n = 0 THEN {}
     ELSE IF w.at # 0 /\ w.at # n THEN {}
     ELSE {[w EXCEPT !.st = "awake", !.woke = n,
                     !.pos = IF s.hib.inclwake /\ n \in d.want THEN d.pos[n] - 1 ELSE d.pos[n]]}
\* a node is tested for sleep only once awake, and the waking node never is
WinSleep(s, d, w) ==
  LET n == Cause(d, w, LAMBDA m : d.sleeps[m] /\ m # w.woke)
  IN IF w.st # "awake" \/ ~HasSleep(s) \/ n = 0 THEN {}
     ELSE IF w.at # 0 /\ w.at # n THEN {}
     ELSE IF \E m \in Between(d, w.pos, d.pos[n]) : m \in d.want THEN {}
     ELSE {[w EXCEPT !.st = IF s.hib.inclsleep /\ n \in d.want THEN "last" ELSE "retired",
                     !.slept = n, !.pos = d.pos[n] - 1]}
WinDeliver(s, d, w, n) ==
  IF n \notin d.want \/ d.pos[n] <= w.pos THEN {}
  ELSE CASE w.st = "awake" ->
              IF (HasSleep(s) /\ d.sleeps[n] /\ n # w.woke) \/ ~Quiet(s, d, w, d.pos[n]) THEN {}
              ELSE {Step(w, d.pos[n])}
         [] w.st = "last" -> IF n = w.slept THEN {[w EXCEPT !.st = "retired", !.pos = d.pos[n]]} ELSE {}
         [] OTHER -> {}
WinResult(s, d, w, err) ==
  IF err = "nil" /\ w.st # "last" /\ (w.st = "retired" \/ Quiet(s, d, w, Len(d.order) + 1)) THEN {w} ELSE {}
=============================================================================
