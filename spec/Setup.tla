------------------------------- MODULE Setup ---------------------------------
(***************************************************************************)
(* Setting up a navigation.  A request passes through phases; a mistake    *)
(* belongs to a phase and, when that phase is reached, the request is      *)
(* refused with an error that identifies a mistake.  Only a request that   *)
(* has passed every phase may produce anything observable.                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* what an error about each mistake must say (any of these)
Filters(pre) ==
     ((pre \o "-notype") :> {"filtertype", "filterundef"}) @@ ((pre \o "-badregex") :> {"regex"})
  @@ ((pre \o "-globexsep") :> {"globexsep"}) @@ ((pre \o "-globexspec") :> {"globexspec"})
  @@ ((pre \o "-polynil") :> {"poly", "filternil"}) @@ ((pre \o "-polynested") :> {"poly"}) @@ ((pre \o "-polynested2") :> {"poly"})
  @@ ((pre \o "-polybad") :> {"regex"}) @@ ((pre \o "-polybad2") :> {"regex"}) @@ ((pre \o "-polynotype") :> {"filtertype", "filterundef"})
  @@ ((pre \o "-badglob") :> {"badglob"}) @@ ((pre \o "-polybadglob") :> {"badglob"}) @@ ((pre \o "-polybadglob2") :> {"badglob"})
  @@ ((pre \o "-globexdir") :> {"badglob"}) @@ ((pre \o "-globexexcl") :> {"badglob"}) @@ ((pre \o "-globexpat") :> {"badglob"})
  @@ ((pre \o "-polycustom") :> {"nocustom", "filternil"}) @@ ((pre \o "-customnil") :> {"nocustom", "filternil"})
Names ==
     ("nohandler" :> {"nohandler"}) @@ ("notree" :> {"notree"}) @@ ("nosub" :> {"nosub"}) @@ ("nofrom" :> {"nofrom"})
  \* an undefined strategy is reported as a missing subscription
  @@ ("nostrategy" :> {"nosub", "nostrategy"})
  @@ ("nilfacade" :> {"wrongprime", "wrongresume"}) @@ ("wrongfacade" :> {"wrongprime", "wrongresume"})
  @@ ("option" :> {"option"}) @@ ("lateoption" :> {"option"})
  @@ ("nilforest" :> {"nilforest"}) @@ ("nilT" :> {"resumefs"}) @@ ("nilR" :> {"resumefs"}) @@ ("absT" :> {"resumefs"})
  @@ ("custom" :> {"custom"}) @@ Filters("node") @@ Filters("wake") @@ Filters("sleep")
  @@ ("child-notype" :> {"filterundef", "filtertype"}) @@ ("child-globex" :> {"childglobex"}) @@ ("child-custom" :> {"childcustom"})
  @@ ("child-poly" :> {"poly"}) @@ ("child-badregex" :> {"regex"}) @@ ("child-badglob" :> {"badglob"})
  @@ ("sample-notype" :> {"filtertype", "filterundef"}) @@ ("sample-poly" :> {"filtertype", "poly"}) @@ ("sample-globex" :> {"filtertype"})
  @@ ("sample-badregex" :> {"regex"}) @@ ("sample-badglob" :> {"badglob"}) @@ ("sample-customnil" :> {"filternil", "nocustom"})
  @@ ("sample-nofiles" :> {"nofiles"}) @@ ("sample-nodirs" :> {"nodirs"})
  @@ ("file-missing" :> {"missing"}) @@ ("file-elsewhere" :> {"missing"}) @@ ("file-dir" :> {"path"})
  @@ ("file-empty" :> {"json", "badstate"}) @@ ("file-text" :> {"json"}) @@ ("file-cut" :> {"json"})
  @@ ("file-type" :> {"json"}) @@ ("file-jotype" :> {"json"})
  @@ ("file-noactive" :> {"badstate"}) @@ ("file-nojo" :> {"badstate"}) @@ ("file-relative" :> {"resumefs"})
  @@ ("file-rrelative" :> {"resumefs"})
Mistakes == DOMAIN Names

\* ------------------------------------------------------------ the phases --
Phases == <<"request", "source", "settings", "forest", "features", "start">>
Source == {"file-missing", "file-elsewhere", "file-dir", "file-empty", "file-text", "file-cut", "file-type", "file-jotype",
           "file-noactive", "file-nojo"}
PhaseOf(f) ==
  CASE f \in {"nohandler", "notree", "nosub", "nofrom", "nostrategy", "nilfacade", "wrongfacade"} -> 1
    [] f \in Source -> 2
    [] f \in {"option", "lateoption"} -> 3
    [] f \in {"nilforest", "nilT", "nilR", "absT", "file-relative", "file-rrelative"} -> 4
    [] OTHER -> 5

\* a request: phase reached, mistakes made, what came of it
Ask(faults) == [ph |-> 1, faults |-> faults, st |-> "open", obs |-> 0]
Here(r) == {f \in r.faults : PhaseOf(f) = r.ph}
Pass(r) == IF r.st = "open" /\ r.ph < Len(Phases) /\ Here(r) = {} THEN {[r EXCEPT !.ph = @ + 1]} ELSE {}
Identifies(r, says) == \E f \in r.faults : Names[f] \cap says # {}
Refuse(r, says) == IF r.st = "open" /\ Here(r) # {} /\ Identifies(r, says) THEN {[r EXCEPT !.st = "refused"]} ELSE {}
\* anything observable: lifecycle notifications and callbacks
Observe(r) == IF r.st = "open" /\ r.ph = Len(Phases) THEN {[r EXCEPT !.obs = 1]} ELSE {}
Finish(r) == IF r.st = "open" /\ r.ph = Len(Phases) THEN {[r EXCEPT !.st = "done"]} ELSE {}

\* all the phases that can be passed at once
RECURSIVE Through(_)
Through(r) == IF Pass(r) = {} THEN r ELSE Through(CHOOSE x \in Pass(r) : TRUE)

\* ------------------------------------------------- judging recorded events --
SetupInit(s) == Ask(s.faults)
SetupStep(s, r, ev) ==
  CASE ev.e \in {"begin", "end", "descend", "ascend", "wake", "sleep", "invoke", "start", "finish"} ->
         Observe(Through(r))
    [] ev.e = "result" ->
         IF ev.nilresult \/ ev.empty THEN {}
         ELSE IF ev.ok THEN Finish(Through(r)) ELSE Refuse(Through(r), ev.says)
    \* the same request without the mistakes, made afterwards
    [] ev.e = "again" -> IF r.st = "open" THEN {} ELSE {Ask({})}
    [] ev.e \in {"crash", "hang", "died", "runaway", "nosession"} -> {}
    [] OTHER -> {r}
=============================================================================
