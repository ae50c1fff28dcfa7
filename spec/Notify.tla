------------------------------- MODULE Notify --------------------------------
(***************************************************************************)
(* NOTIFY: the handlers of every kind of notification, in the order they   *)
(* were registered, and whether the kind is muted.  An occurrence is a     *)
(* frame on a stack, since a handler may itself give rise to another one.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Kinds == {"ascend", "begin", "descend", "end", "wake", "sleep"}
Insts == {0, 1}
Control == [hs |-> <<>>, muted |-> FALSE]
Controls == [i \in Insts |-> [k \in Kinds |-> Control]]

\* ------------------------------------------------- the operations --
On(c, i, k, f) == [c EXCEPT ![i][k].hs = Append(@, f)]
SetMute(c, i, ks, b) == [c EXCEPT ![i] = [k \in Kinds |-> IF k \in ks THEN [c[i][k] EXCEPT !.muted = b] ELSE c[i][k]]]
Operate(c, op) ==
  CASE op.op = "on" -> On(c, op.i, op.k, op.f)
    [] op.op = "mute" -> SetMute(c, op.i, {op.k}, TRUE)
    [] op.op = "unmute" -> SetMute(c, op.i, {op.k}, FALSE)
    [] op.op = "muteall" -> SetMute(c, op.i, Kinds, TRUE)
    [] op.op = "unmuteall" -> SetMute(c, op.i, Kinds, FALSE)
    [] OTHER -> c
\* who runs when the notification occurs now
Audience(c, i, k) == IF c[i][k].muted THEN <<>> ELSE c[i][k].hs

\* ------------------------------------------------------- an occurrence --
\* due: handlers that must still run; late: handlers that may (registered
\* while the occurrence is in progress); soft: the kind was muted meanwhile
Frame(c, i, k, arg) == [i |-> i, k |-> k, arg |-> arg, due |-> Audience(c, i, k), late |-> <<>>, soft |-> FALSE]
Touch(fr, op) ==
  IF fr.i # op.i THEN fr
  ELSE CASE op.op = "on" /\ op.k = fr.k -> [fr EXCEPT !.late = Append(@, op.f)]
         [] op.op = "muteall" \/ (op.op = "mute" /\ op.k = fr.k) -> [fr EXCEPT !.soft = TRUE]
         [] OTHER -> fr
TouchAll(st, op) == [j \in 1..Len(st) |-> Touch(st[j], op)]
\* the handler that runs next in a frame
Ran(fr, ev) ==
  IF fr.i # ev.i \/ fr.k # ev.k \/ fr.arg # ev.arg THEN {}
  ELSE IF fr.due # <<>> /\ Head(fr.due) = ev.f THEN {[fr EXCEPT !.due = Tail(@)]}
  ELSE IF fr.due = <<>> /\ fr.late # <<>> /\ Head(fr.late) = ev.f THEN {[fr EXCEPT !.late = Tail(@)]}
  ELSE {}
Over(fr) == fr.due = <<>> \/ fr.soft

\* ------------------------------------------------ judging recorded events --
\* nav: 2 none, else the options the navigation is made with; seen: how often
\* begin and end have occurred in it
NotesInit(s) == [c |-> Controls, st |-> <<>>, nav |-> 2, b |-> 0, n |-> 0]
Top(m) == m.st[Len(m.st)]
Pop(st) == SubSeq(st, 1, Len(st) - 1)
Unmuted(c, i) == [k \in Kinds |-> [c[i][k] EXCEPT !.muted = FALSE]]
NotesStep(s, m, ev) ==
  CASE ev.e = "op" ->
         IF m.nav # 2 THEN {}
         ELSE CASE ev.op = "dispatch" -> {[m EXCEPT !.st = Append(@, Frame(m.c, ev.i, ev.k, ev.arg))]}
                [] ev.op = "nav" -> IF m.st = <<>> THEN {[m EXCEPT !.nav = ev.i, !.b = 0, !.n = 0]} ELSE {}
                [] OTHER -> {[m EXCEPT !.c = Operate(@, ev), !.st = TouchAll(@, ev)]}
    [] ev.e = "ran" ->
         IF m.nav = 2 THEN
           IF m.st = <<>> THEN {} ELSE {[m EXCEPT !.st = Append(Pop(@), fr)] : fr \in Ran(Top(m), ev)}
         ELSE LET open == m.st # <<>> /\ ~Over(Top(m))
                  st0 == IF open THEN m.st
                         ELSE <<Frame([i \in Insts |-> Unmuted(m.c, i)], m.nav, ev.k, ev.arg)>>
              IN {[m EXCEPT !.st = <<fr>>, !.b = IF ~open /\ ev.k = "begin" THEN @ + 1 ELSE @,
                                           !.n = IF ~open /\ ev.k = "end" THEN @ + 1 ELSE @] : fr \in Ran(st0[1], ev)}
    [] ev.e = "dispatched" -> IF m.nav = 2 /\ m.st # <<>> /\ Over(Top(m)) THEN {[m EXCEPT !.st = Pop(@)]} ELSE {}
    [] ev.e = "navigated" ->
         IF /\ m.nav # 2 /\ ev.ok /\ (m.st # <<>> => Over(Top(m)))
            /\ m.b = (IF m.c[m.nav]["begin"].hs = <<>> THEN 0 ELSE 1) /\ m.n = (IF m.c[m.nav]["end"].hs = <<>> THEN 0 ELSE 1)
         THEN {[m EXCEPT !.st = <<>>, !.nav = 2]} ELSE {}
    [] OTHER -> {}
=============================================================================
