-------------------------------- MODULE Persist --------------------------------
(***************************************************************************)
(* PERSIST: session files.  Options and session facts are values: functions *)
(* from a field to its text.  A file is absent, good (it holds a value that *)
(* was saved whole) or bad (it was torn or damaged); only a good file loads *)
(* and what is loaded is what was saved.                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Absent == [st |-> "absent", o |-> <<>>, a |-> <<>>]
Bad == [st |-> "bad", o |-> <<>>, a |-> <<>>]
Good(o, a) == [st |-> "good", o |-> o, a |-> a]
At(fs, f) == IF f \in DOMAIN fs THEN fs[f] ELSE Absent
Put(fs, f, v) == (f :> v) @@ fs

\* a save that is refused leaves the file as it was; a torn one leaves a part
Saved(fs, f, o, a, fault) ==
  CASE fault = "none" -> Put(fs, f, Good(o, a))
    [] fault = "torn" -> Put(fs, f, Bad)
    [] OTHER -> fs
Damaged(fs, f) == IF At(fs, f).st = "absent" THEN fs ELSE Put(fs, f, Bad)
Removed(fs, f) == Put(fs, f, Absent)
Loads(fs, f) == At(fs, f).st = "good"

\* ------------------------------------------------ judging recorded events --
PInit(s) == <<>>
PStep(s, fs, ev) ==
  CASE ev.e = "save" ->
         IF /\ ev.r = (IF ev.fault = "none" THEN "ok" ELSE "error")
            /\ ev.oafter = ev.o /\ ev.aafter = ev.a            \* nothing in memory has changed
            /\ ev.names = <<ev.f>> /\ ev.perm = "640"
            /\ (ev.r = "ok" => ev.ro = ev.o /\ ev.ra = ev.a)
         THEN {Saved(fs, ev.f, ev.o, ev.a, ev.fault)} ELSE {}
    [] ev.e = "load" ->
         IF Loads(fs, ev.f)
         THEN IF ev.r = "ok" /\ ev.o = At(fs, ev.f).o /\ ev.jo = ev.o /\ ev.a = At(fs, ev.f).a THEN {fs} ELSE {}
         ELSE IF ev.r # "ok" THEN {fs} ELSE {}
    [] ev.e = "damage" -> {Damaged(fs, ev.f)}
    [] ev.e = "remove" -> {Removed(fs, ev.f)}
    [] ev.e = "compare" -> IF ev.jo = ev.o2 /\ ev.r = (IF ev.o = ev.o2 THEN "ok" ELSE "unequal") THEN {fs} ELSE {}
    [] ev.e = "convert" -> IF ev.back = ev.o /\ ev.jo = ev.o THEN {fs} ELSE {}
    [] ev.e = "nothing" -> IF ev.r = "unequal" THEN {fs} ELSE {}
    [] OTHER -> {}
=============================================================================
