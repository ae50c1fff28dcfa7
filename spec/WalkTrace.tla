----------------------------- MODULE WalkTrace -------------------------------
(***************************************************************************)
(* Validates traces recorded from the real navigator against the property  *)
(* machines.  Aspect selects the machine(s) that judge.                    *)
(***************************************************************************)
EXTENDS Rec, Request, Cover, Order, Bracket, Meta, Window, Save, PoolRun, Same, Walk

CONSTANT Aspect
VARIABLES t, l, m          \* scenario, events consumed, machine state

\* kinds of event that mean the navigator itself broke down
Broken == {"crash", "hang", "died", "runaway"}
IsInvoke(ev) == ev.e \in {"invoke", "start"}
First(ev) == ev.h = 1
Act(s, k, n) == IF k.nav <= Len(s.acts) THEN s.acts[k.nav][n] ELSE ""

\* ------------------------------------------------------------- coverage --
Nil == [fi |-> 0, di |-> 0, cf |-> 0]
CoverStart(s, d, from, nav) == [c |-> CoverInit(s, d, from), nav |-> nav, sum |-> Nil, base |-> Nil]
Wrap(k, C) == {[k EXCEPT !.c = x] : x \in C}
CoverResult(s, d, k, ev, chk) ==
  LET c == k.c
      ok == /\ ~c.fin
            /\ ("err" \in chk) => ev.err = CoverWhy(s, c)
            /\ CoverComplete(s, d, c)
            /\ ("asked" \in chk) => CoverAsked(s, d, c)
            /\ ("sunk" \in chk /\ k.nav = 1) => SunkOk(s, ev)
  IN IF ok THEN Wrap(k, {Ended(c)}) ELSE {}
CoverStep(s, d, k, ev, chk) ==
  CASE IsInvoke(ev) ->
         IF ev.n = 0 THEN {}
         ELSE IF ("kids" \in chk) /\ ev.ch # d.children[ev.n] THEN {}
         ELSE Wrap(k, CoverDeliver(s, d, k.c, ev.n, Act(s, k, ev.n)))
    \* a node looked at again after the navigation, found to have changed
    [] ev.e = "recall" -> IF ("kids" \in chk) /\ (ev.n = 0 \/ ev.ch # d.children[ev.n]) THEN {} ELSE {k}
    [] ev.e = "ask" -> IF "asked" \in chk /\ (ev.n = 0 \/ ~Shown(s, d, ev.n, ev)) THEN {}
                       ELSE LET r == IF ev.n = 0 THEN {k.c} ELSE CoverAsk(s, d, k.c, ev.n, ev.err)
                            IN IF r = {} /\ "asked" \notin chk THEN {k} ELSE Wrap(k, r)
    [] ev.e = "fault" -> IF ~ev.root THEN {} ELSE Wrap(k, CoverFault(s, d, k.c, ev.err))
    [] ev.e = "result" -> CoverResult(s, d, k, ev, chk)
    [] ev.e = "again" -> IF k.c.fin THEN {CoverStart(s, d, 0, 1)} ELSE {}
    [] ev.e = "resume" -> IF k.c.fin THEN {CoverStart(s, d, ev.from, k.nav + 1)} ELSE {}
    [] ev.e \in Broken -> {}
    [] ev.e = "nosave" -> IF k.c.fin /\ k.c.ctl # "panic" THEN {k} ELSE {}
    [] OTHER -> {k}

\* -------------------------------------------------------------- metrics --
\* Counts what actually happened; rejections come from the model, provided
\* the deliveries agree with it (otherwise they are another property's matter).
\* A session that takes up another by spawning goes on counting deliveries (base)
MetricsStep(s, d, k, ev) ==
  CASE IsInvoke(ev) ->
         LET c2 == IF ev.n = 0 THEN {} ELSE CoverDeliver(s, d, k.c, ev.n, Act(s, k, ev.n))
             add == [fi |-> IF ev.dir THEN 0 ELSE 1, di |-> IF ev.dir THEN 1 ELSE 0, cf |-> Len(ev.ch)]
             k1 == [k EXCEPT !.sum = [x \in DOMAIN @ |-> @[x] + add[x]]]
         IN IF c2 = {} THEN {[k1 EXCEPT !.c.ctl = "off"]} ELSE Wrap(k1, c2)
    [] ev.e = "ask" -> LET r == IF ev.n = 0 THEN {} ELSE CoverAsk(s, d, k.c, ev.n, ev.err)
                       IN IF r = {} THEN {k} ELSE Wrap(k, r)
    [] ev.e = "end" /\ First(ev) ->
         IF s.samp.filter.type # "none" THEN {k}
         ELSE IF ev.m.fi = k.sum.fi /\ ev.m.di = k.sum.di THEN {k} ELSE {}
    [] ev.e = "result" ->
         IF ev.noresult THEN (IF ev.err = "nil" THEN {} ELSE {[k EXCEPT !.c = Ended(@)]})
         ELSE LET tidy == ev.err = "nil" => (ev.timeok /\ (ev.done \/ (k.nav > 1 /\ k.c.ctl # "")))
                  counted == ev.m.fi = k.sum.fi /\ ev.m.di = k.sum.di
                  full == \/ k.c.ctl = "off" \/ s.samp.filter.type # "none"
                          \/ ~CoverComplete(s, d, k.c)
                          \/ FilteredOk(s, d, k.c, ev.m) /\ ChildOk(s, d, k.c, [ev.m EXCEPT !.cf = @ - k.base.cf])
                  kids == s.samp.filter.type # "none"
                          \/ (s.sub # "dirfiles" /\ s.child.type = "none") \/ ev.m.cf = k.sum.cf
              IN IF tidy /\ counted /\ full /\ kids THEN {[k EXCEPT !.c = Ended(@)]} ELSE {}
    [] ev.e = "again" -> {CoverStart(s, d, 0, 1)}
    [] ev.e = "resume" -> LET b == IF ev.strategy = "spawn" THEN k.sum ELSE Nil
                          IN {[CoverStart(s, d, ev.from, k.nav + 1) EXCEPT !.sum = b, !.base = b]}
    [] ev.e \in Broken -> {}
    [] OTHER -> {k}

\* ---------------------------------------------------------------- order --
OrderStep(s, d, o, ev) ==
  CASE ev.e = "recall" -> IF OrderKids(s, d, ev.n, ev.ch) THEN {o} ELSE {}
    [] ev.e = "invoke" -> IF OrderKids(s, d, ev.n, ev.ch) THEN OrderDeliver(s, d, o, ev.n) ELSE {}
    [] ev.e = "descend" /\ First(ev) -> OrderDescend(s, d, o, ev.n)
    [] ev.e \in {"again", "resume"} -> {OrderInit}
    [] ev.e \in Broken -> {}
    [] OTHER -> {o}

\* -------------------------------------------------------------- bracket --
BracketStep(s, d, b, ev) ==
  CASE ev.e = "begin" /\ First(ev) -> BracketBegin(s, d, b, ev.n = 1)
    [] ev.e = "descend" /\ First(ev) -> BracketDescend(s, d, b, ev.n)
    [] ev.e = "ascend" /\ First(ev) -> BracketAscend(s, d, b, ev.n)
    [] ev.e = "invoke" -> BracketInvoke(s, d, b, ev.n)
    [] ev.e = "end" /\ First(ev) -> BracketEnd(s, d, b, ev.m)
    [] ev.e = "result" -> BracketResult(s, d, b, ev)
    [] ev.e = "again" -> {BracketInit}
    [] ev.e = "resume" -> {BracketResume(s, ev.from, ev.strategy)}
    [] ev.e \in Broken -> {}
    [] ev.e \in {"ask", "wake", "sleep"} -> IF On(s, b) THEN {b} ELSE {}
    [] OTHER -> {b}

\* ----------------------------------------------------------------- meta --
MetaStep(s, d, x, ev) ==
  CASE IsInvoke(ev) \/ ev.e = "recall" -> IF MetaOk(s, d, x, ev) THEN {x} ELSE {}
    [] ev.e = "again" -> {MetaInit}
    [] ev.e = "resume" -> {MetaResume(s, ev.from, ev.strategy)}
    [] ev.e \in {"descend", "ascend"} -> IF ev.n = 0 \/ ev.dir = s.dir[ev.n] THEN {x} ELSE {}
    [] ev.e \in Broken -> {}
    [] OTHER -> {x}

\* --------------------------------------------------------------- window --
Told(f, desc, what) == f.type = "poly" \/ desc = what
WindowStep(s, d, w, ev) ==
  CASE ev.e = "descend" /\ First(ev) -> {[w EXCEPT !.at = ev.n]}
    \* announced by the description of the condition that was met
    [] ev.e = "wake" -> IF Told(s.hib.wake, ev.d, "rise") THEN (IF First(ev) THEN WinWake(s, d, w) ELSE {w}) ELSE {}
    [] ev.e = "sleep" -> IF Told(s.hib.sleep, ev.d, "rest") THEN (IF First(ev) THEN WinSleep(s, d, w) ELSE {w}) ELSE {}
    [] ev.e = "invoke" -> IF ev.n = 0 THEN {} ELSE WinDeliver(s, d, w, ev.n)
    [] ev.e = "result" -> WinResult(s, d, w, ev.err)
    [] ev.e = "again" -> {WinInit(s)}
    [] ev.e \in Broken -> {}
    [] OTHER -> {w}

\* ----------------------------------------------------------------- save --
SaveStep(s, d, k, ev) ==
  CASE IsInvoke(ev) -> IF ev.n = 0 THEN {} ELSE SaveDeliver(s, d, k, ev.n, Act(s, k, ev.n))
    [] ev.e = "rescue" -> SaveRescue(s, k, ev.data)
    [] ev.e = "result" -> SaveResult(s, k, ev)
    [] ev.e = "saved" -> SaveSaved(s, d, k, ev)
    [] ev.e = "nosave" -> IF k.rep /\ ~(Panicked(k) /\ Writes(s)) THEN {k} ELSE {}
    [] ev.e = "files" -> SaveFiles(k, ev.n)
    [] ev.e = "resume" -> SaveAgain(s, d, k, ev.from)
    [] ev.e \in Broken -> {}
    [] OTHER -> {k}

\* --------------------------------------------------------------- resume --
\* after a resume: exactly the rest, in order, at the same place in the tree
Pair(A, B) == {<<x, y>> : x \in A, y \in B}
ResumeStep(s, d, k, ev) ==
  LET c == k[1]  o == k[2]
  IN CASE c.c.from \notin d.want /\ c.c.from # 0 -> {k}        \* not a position a session can have
       [] IsInvoke(ev) ->
            IF ev.n = 0 \/ ev.d # d.depth[ev.n] \/ ev.dir # s.dir[ev.n] \/ ev.sub # d.sub[ev.n] \/ ev.nm # s.str[ev.n]
               \/ SeqSet(ev.sc) # d.scope[ev.n]
            THEN {}
            ELSE Pair(CoverStep(s, d, c, ev, {"err", "kids"}), OrderStep(s, d, o, ev))
       [] OTHER -> Pair(CoverStep(s, d, c, ev, {"err", "kids"}), OrderStep(s, d, o, ev))

\* ----------------------------------------------------------------- pool --
PoolStep(s, d, k, ev) ==
  CASE ev.e = "start" -> PoolStart(s, d, k, ev.n, ev.k)
    [] ev.e = "finish" -> PoolFinish(k, ev.n, ev.k)
    [] ev.e = "invoke" ->            \* the sequential session a concurrent resume starts from
         IF ev.n = 0 THEN {} ELSE {[k EXCEPT !.c = x, !.fin = @ \cup {ev.n}] : x \in CoverDeliver(s, d, k.c, ev.n, Act(s, k, ev.n))}
    [] ev.e = "cancel" -> PoolCancel(k)
    [] ev.e = "returned" -> PoolReturned(k)
    [] ev.e = "waited" -> PoolWaited(s, d, k)
    [] ev.e = "output" -> IF ev.n = 0 THEN {} ELSE PoolOutput(s, k, ev.n, ev.err, Act(s, k, ev.n))
    [] ev.e = "outclosed" -> PoolClosed(s, k)
    [] ev.e = "result" -> IF k.ph = "open" THEN {[k EXCEPT !.ph = "over"]} ELSE PoolResult(s, d, k, ev.err)
    [] ev.e = "resume" -> {PoolInit(s, d, ev.from, k.nav + 1)}
    [] ev.e = "again" -> IF k.ph = "over" THEN {PoolInit(s, d, 0, 1)} ELSE {}
    [] ev.e \in Broken -> {}
    [] OTHER -> {k}

\* ----------------------------------------------------------------- same --
SameStep(s, d, k, ev) ==
  CASE IsInvoke(ev) -> IF ev.n = 0 THEN {} ELSE SameDeliver(s, d, k, ev.n, s.acts[1][ev.n])
    [] ev.e = "result" -> SameResult(s, d, k, ev)
    [] ev.e = "via" -> SameVia(k, ev.conc)
    [] ev.e = "again" -> SameAgain(s, d, k)
    [] ev.e \in Broken -> {}
    [] OTHER -> {k}

\* ----------------------------------------------------------------- walk --
\* the whole behaviour: every event, in the order the algorithm defines, of the
\* first session and of those that take it up (at a position they can have)
Whole(s, d, w, ev) ==
  IF w.st = "lost" THEN {w} ELSE WalkStep(s, d, w, ev, s.acts[w.nav])
WholeStep(s, d, w, ev) ==
  CASE ev.e \in Notices -> IF First(ev) THEN Whole(s, d, w, ev) ELSE {w}
    [] ev.e = "result" -> IF w.st # "lost" /\ w.nav = 1 /\ ~SunkOk(s, ev) THEN {} ELSE Whole(s, d, w, ev)
    [] ev.e \in {"invoke", "ask", "fault"} -> Whole(s, d, w, ev)
    [] ev.e = "again" -> IF w.st = "over" THEN {WalkInit(s)} ELSE {}
    [] ev.e = "resume" -> IF w.st \notin {"over", "lost"} THEN {}
                          ELSE {IF w.st = "lost" \/ ev.from \notin d.met THEN [w EXCEPT !.st = "lost"]
                                ELSE WalkResume(s, w, ev.from, ev.strategy)}
    [] ev.e \in Broken -> {}
    [] OTHER -> {w}

Chk == CASE Aspect \in {"C01", "C03", "C11", "C16", "C22"} -> {"err"}
         [] Aspect = "C08" -> {"err", "sunk"}
         [] Aspect = "C07" -> {"err"}
         [] Aspect = "C09" -> {"err", "kids", "sunk"}
         [] Aspect = "C12" -> {"err", "asked"}
         [] OTHER -> {}
Machine == CASE Aspect \in {"C01", "C03", "C07", "C08", "C09", "C11", "C12"} -> "cover"
             [] Aspect = "C06" -> "metrics"
             [] Aspect = "C02" -> "order"
             [] Aspect = "C04" -> "meta"
             [] Aspect = "C05" -> "bracket"
             [] Aspect = "C10" -> "window"
             [] Aspect = "C13" -> "save"
             [] Aspect = "C14" -> "resume"
             [] Aspect = "C16" -> "pool"
             [] Aspect = "C22" -> "same"
             [] Aspect = "C24" -> "walk"
             [] OTHER -> "?"

MInit(s, d) ==
  CASE Machine \in {"cover", "metrics"} -> CoverStart(s, d, 0, 1)
    [] Machine = "order" -> OrderInit
    [] Machine = "bracket" -> BracketInit
    [] Machine = "meta" -> MetaInit
    [] Machine = "window" -> WinInit(s)
    [] Machine = "save" -> SaveInit(s, d, 0, 1, 0)
    [] Machine = "pool" -> PoolInit(s, d, 0, 1)
    [] Machine = "same" -> SameInit(s, d)
    [] Machine = "walk" -> WalkInit(s)
    [] Machine = "resume" -> <<CoverStart(s, d, 0, 1), OrderInit>>
MStep(s, d, k, ev) ==
  CASE Machine = "cover" -> CoverStep(s, d, k, ev, Chk)
    [] Machine = "metrics" -> MetricsStep(s, d, k, ev)
    [] Machine = "order" -> OrderStep(s, d, k, ev)
    [] Machine = "bracket" -> BracketStep(s, d, k, ev)
    [] Machine = "meta" -> MetaStep(s, d, k, ev)
    [] Machine = "window" -> WindowStep(s, d, k, ev)
    [] Machine = "save" -> SaveStep(s, d, k, ev)
    [] Machine = "pool" -> PoolStep(s, d, k, ev)
    [] Machine = "same" -> SameStep(s, d, k, ev)
    [] Machine = "walk" -> WholeStep(s, d, k, ev)
    [] Machine = "resume" -> ResumeStep(s, d, k, ev)

Init == /\ t \in 1..Len(Raw)
        /\ l = 0
        /\ m = MInit(S[t], D[t])
Next == /\ l < Len(Ev(t))
        /\ LET r == RequestAt(t, l + 1) IN m' \in MStep(r.s, r.d, m, Ev(t)[l + 1])
        /\ l' = l + 1
        /\ t' = t
        /\ (l' = Len(Ev(t))) => PrintT(<<"ACC", t>>)
        /\ Diag => PrintT(<<"AT", t, l'>>)
Spec == Init /\ [][Next]_<<t, l, m>>
=============================================================================
