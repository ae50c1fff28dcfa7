-------------------------------- MODULE Walk ---------------------------------
(***************************************************************************)
(* WALK: the navigation algorithm itself, as a machine that a client       *)
(* watches.  Where the property machines (Cover, Order, Bracket, Window)   *)
(* each state one promise declaratively, this one says step by step how    *)
(* the features work together: the navigator keeps a stack of frames, one  *)
(* for each directory entered and not yet left; a node that is met is      *)
(* announced, put through the invocation chain (hibernation, then the      *)
(* filters, then the client), brought to the skip handler, its entries are *)
(* traversed and it is left again.                                         *)
(*                                                                         *)
(*   st     new -> (root) -> on -> closing -> over                         *)
(*   stack  frames [n, ph, todo, ghost], the innermost last                *)
(*          ph: arrive filter invoke ask kids leave                        *)
(*   hib    dormant -> awake -> retired                                    *)
(*   why    what will be reported;  m  the counters                        *)
(*                                                                         *)
(* A navigation that was interrupted (the callback panicked at node at)    *)
(* can be taken up again, in a session of its own (WalkResume):            *)
(*   fastward  the same traversal, but mute and without callbacks until    *)
(*             node ff is reached; it counts from zero                     *)
(*   spawn     what remains is traversed on its own: the node and its      *)
(*             following siblings, then those of its parent, and so on;    *)
(*             its ancestors are ghosts, which nobody is told about; it    *)
(*             goes on counting deliveries from what the interrupted       *)
(*             session left behind                                         *)
(*   nav    the number of the session                                      *)
(*                                                                         *)
(* Moves(s, d, w) is the set of possible steps, as pairs of an event (or   *)
(* Quiet when a client sees nothing) and the state it leads to.  MCWalk    *)
(* checks that its behaviours are allowed by all the property machines;    *)
(* WalkTrace (aspect C24) checks that the recorded ones are its own.       *)
(* Freedom the documentation leaves is kept as a choice here:              *)
(*  - what becomes of the rest of the directory after a file's callback    *)
(*    asked to skip it, or the skip handler answered so;                   *)
(*  - whether a retired walk goes on silently or ends.                     *)
(***************************************************************************)
EXTENDS Scn, Integers

Hush == [e |-> "-"]
NoCounts == [fi |-> 0, di |-> 0, fo |-> 0, do |-> 0, cf |-> 0, co |-> 0]

WalkInit(s) ==
  [st |-> "new", stack |-> <<>>, why |-> "nil", m |-> NoCounts, quit |-> FALSE, ff |-> 0, at |-> 0, nav |-> 1,
   hib |-> IF s.hib.wake.type = "none" THEN "awake" ELSE "dormant"]

Hibernates(s) == s.hib.wake.type # "none" \/ s.hib.sleep.type # "none"
Filters(s) == s.filter.type # "none"

Inner(w) == w.stack[Len(w.stack)]
SetTop(w, f) == [w EXCEPT !.stack[Len(w.stack)] = f]
Phase(w, ph) == SetTop(w, [Inner(w) EXCEPT !.ph = ph])
\* stop the whole walk: every open frame is left
Abandon(w, why) ==
  [w EXCEPT !.quit = TRUE, !.why = why,
            !.stack = [i \in 1..Len(@) |-> [@[i] EXCEPT !.ph = "leave", !.todo = <<>>]]]
\* drop what remains of the directory that the innermost node is in
DropSiblings(w) ==
  IF Len(w.stack) < 2 THEN w ELSE [w EXCEPT !.stack[Len(w.stack) - 1].todo = <<>>]

\* the entries of directory n in the order they are traversed
Entries(s, n) ==
  IF ~s.dir[n] \/ s.readfail[n] THEN <<>>
  ELSE InOrder(s, {k \in Retained(s, n) : DirsOnly(s) => s.dir[k]})
Enter(w, n) == [w EXCEPT !.stack = Append(@, [n |-> n, ph |-> "arrive", todo |-> <<>>, ghost |-> FALSE])]

\* is the client interested in this kind of node at all?
Relevant(s, n) == CASE s.sub = "files" -> ~s.dir[n]
                    [] DirsOnly(s) -> s.dir[n]
                    [] OTHER -> TRUE
\* where a node goes when the chain has let it pass or declined it
AfterChain(s, n) == IF s.sub = "files" THEN "leave" ELSE "ask"

Arrive(s, d, w, n) ==
  IF ~Relevant(s, n) THEN {<<Hush, Phase(w, IF s.sub = "files" THEN "ask" ELSE "leave")>>}
  ELSE IF w.ff = n THEN {<<Hush, [w EXCEPT !.ff = 0]>>}
  ELSE IF w.ff # 0 THEN {<<Hush, Phase(w, AfterChain(s, n))>>}
  ELSE IF ~Hibernates(s) THEN {<<Hush, Phase(w, "filter")>>}
  ELSE CASE w.hib = "dormant" ->
              IF d.wakes[n]
              THEN {<<[e |-> "wake"], [Phase(w, IF s.hib.inclwake THEN "filter" ELSE AfterChain(s, n)) EXCEPT !.hib = "awake"]>>}
              ELSE {<<Hush, Phase(w, AfterChain(s, n))>>}
         [] w.hib = "awake" ->
              IF s.hib.sleep.type # "none" /\ d.sleeps[n]
              THEN {<<[e |-> "sleep"], [Phase(w, IF s.hib.inclsleep THEN "filter" ELSE AfterChain(s, n)) EXCEPT !.hib = "retired"]>>}
              ELSE {<<Hush, Phase(w, "filter")>>}
         [] OTHER -> {<<Hush, Phase(w, AfterChain(s, n))>>, <<Hush, Abandon(w, "nil")>>}

Filter(s, d, w, n) ==
  IF ~d.pass[n]
  THEN {<<Hush, [Phase(w, AfterChain(s, n)) EXCEPT
                   !.m.fo = @ + (IF ~s.dir[n] /\ Filters(s) THEN 1 ELSE 0), !.m.do = @ + (IF s.dir[n] /\ Filters(s) THEN 1 ELSE 0)]>>}
  ELSE {<<Hush, [Phase(w, "invoke") EXCEPT
                   !.m.cf = @ + Len(d.children[n]),
                   !.m.co = @ + (IF s.child.type = "none" THEN 0 ELSE Len(d.files[n]) - Len(d.children[n]))]>>}

Invoke(s, d, w, n, act) ==
  LET w1 == [w EXCEPT !.m.fi = @ + (IF s.dir[n] THEN 0 ELSE 1), !.m.di = @ + (IF s.dir[n] THEN 1 ELSE 0)]
      ev == [e |-> "invoke", n |-> n, ch |-> d.children[n]]
      to(x) == <<ev, x>>
  IN CASE act \in {"err", "werr"} -> {to(Abandon(w1, "client"))}
       [] act = "skipall" -> {to(Abandon(w1, "nil"))}
       [] act \in {"panic", "panicerr"} -> {to([Abandon(w1, "saved") EXCEPT !.at = n])}
       [] act = "skipdir" -> IF s.dir[n] THEN {to(Phase(w1, "leave"))}
                             ELSE {to(Phase(w1, "leave")), to(Phase(DropSiblings(w1), "leave"))}
       [] OTHER -> {to(Phase(w1, AfterChain(s, n)))}

Ask(s, d, w, n) ==
  IF ~s.skipon THEN {<<Hush, SetTop(w, [Inner(w) EXCEPT !.ph = "kids", !.todo = Entries(s, n)])>>}
  ELSE LET ev == [e |-> "ask", n |-> n, err |-> IF s.readfail[n] /\ s.dir[n] THEN "read" ELSE "nil"]
       IN CASE s.ans[n] = "all" -> {<<ev, Abandon(w, IF s.anserr[n] THEN "skiperr" ELSE "nil")>>}
            [] s.ans[n] = "dir" -> {<<ev, Phase(w, "leave")>>, <<ev, Phase(DropSiblings(w), "leave")>>}
            [] OTHER -> {<<ev, SetTop(w, [Inner(w) EXCEPT !.ph = "kids", !.todo = Entries(s, n)])>>}

Kids(s, d, w) ==
  LET f == Inner(w)
  IN IF f.todo = <<>> THEN {<<Hush, Phase(w, "leave")>>}
     ELSE LET k == Head(f.todo)
              w1 == SetTop(w, [f EXCEPT !.todo = Tail(@)])
          IN IF Limit(s) # 0 /\ Len(w.stack) > Limit(s) THEN {<<Hush, w1>>}
             ELSE {<<[e |-> "descend", n |-> k], Enter(w1, k)>>}

Leave(s, w) ==
  {<<IF Inner(w).ghost THEN Hush ELSE [e |-> "ascend", n |-> Inner(w).n], [w EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1),
                                                   !.st = IF Len(w.stack) = 1 THEN "closing" ELSE @]>>}

Advance(s, d, w, n, act) ==
  CASE Inner(w).ph = "arrive" -> Arrive(s, d, w, n)
    [] Inner(w).ph = "filter" -> Filter(s, d, w, n)
    [] Inner(w).ph = "invoke" -> Invoke(s, d, w, n, act[n])
    [] Inner(w).ph = "ask" -> Ask(s, d, w, n)
    [] Inner(w).ph = "kids" -> Kids(s, d, w)
    [] Inner(w).ph = "leave" -> Leave(s, w)

Moves(s, d, w, act) ==
  CASE w.st = "new" -> {<<[e |-> "begin", n |-> 1], [w EXCEPT !.st = IF w.stack = <<>> THEN "root" ELSE "on"]>>}
    [] w.st = "root" ->
         IF ~s.statfail THEN {<<[e |-> "descend", n |-> 1], [Enter(w, 1) EXCEPT !.st = "on"]>>}
         ELSE LET w1 == [w EXCEPT !.st = "closing"]
              IN IF s.fault = "" THEN {<<Hush, [w1 EXCEPT !.why = "stat"]>>}
                 ELSE {<<[e |-> "fault", err |-> "stat"], [w1 EXCEPT !.why = IF s.fault = "nil" THEN "nil" ELSE "faulterr"]>>}
    [] w.st = "on" -> Advance(s, d, w, Inner(w).n, act)
    [] w.st = "closing" -> {<<[e |-> "end", m |-> w.m], [w EXCEPT !.st = "closed"]>>}
    [] w.st = "closed" -> {<<[e |-> "result", err |-> w.why, m |-> w.m], [w EXCEPT !.st = "over"]>>}
    [] OTHER -> {}

\* ---------------------------------------------------------------- sessions --
\* the entries after k in the directory it is in
After(s, k) == LET q == Entries(s, s.par[k])
                   i == CHOOSE i \in 1..Len(q) : q[i] = k
               IN SubSeq(q, i + 1, Len(q))
\* the ghosts of the ancestors of n, outermost first; each has yet to traverse
\* what comes after its child
RECURSIVE Ghosts(_, _)
Ghosts(s, n) == IF s.par[n] = 0 THEN <<>>
                ELSE Append(Ghosts(s, s.par[n]), [n |-> s.par[n], ph |-> "kids", todo |-> After(s, n), ghost |-> TRUE])
WalkResume(s, w, from, strategy) ==
  LET w1 == [WalkInit(s) EXCEPT !.nav = w.nav + 1]
      g == Ghosts(s, from)
  IN IF strategy = "fastward" THEN [w1 EXCEPT !.ff = from]
     ELSE [w1 EXCEPT !.m = [w.m EXCEPT !.fo = 0, !.do = 0, !.co = 0], !.stack = IF g = <<>> THEN g ELSE [g EXCEPT ![Len(g)].todo = <<from>> \o @]]

\* ----------------------------------------------------- what a client sees --
\* events for which no handler is registered go unseen, as do those of a
\* traversal that is on its way to where it is taken up
Notices == {"begin", "descend", "ascend", "wake", "sleep", "end"}
Seeable(s, w, ev) == ev.e # "-" /\ ev.e \notin s.silent /\ (ev.e \in Notices => w.ff = 0)

RECURSIVE Fire(_, _, _, _)
Fire(s, d, w, act) ==
  UNION {IF Seeable(s, w, x[1]) THEN {x} ELSE Fire(s, d, x[2], act) : x \in Moves(s, d, w, act)}

\* the counters are not defined for a sampling filter
Counted(s) == s.samp.filter.type = "none"
\* does a recorded event agree with one of the machine's?
Agrees(s, ev, x) ==
  /\ ev.e = x.e
  /\ CASE x.e \in {"begin", "descend", "ascend"} -> ev.n = x.n
       [] x.e = "invoke" -> ev.n = x.n /\ ev.ch = x.ch
       [] x.e = "ask" -> ev.n = x.n /\ ev.err = x.err
       [] x.e = "fault" -> ev.err = x.err /\ ev.root
       [] x.e = "end" -> Counted(s) => ev.m = x.m
       [] x.e = "result" -> /\ ev.err = x.err
                            /\ ev.noresult => ev.err # "nil"
                            /\ (Counted(s) /\ ~ev.noresult) => ev.m = x.m
       [] OTHER -> TRUE
WalkStep(s, d, w, ev, act) == {x[2] : x \in {y \in Fire(s, d, w, act) : Agrees(s, ev, y[1])}}
=============================================================================
