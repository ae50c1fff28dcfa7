------------------------------ MODULE Bracket --------------------------------
(***************************************************************************)
(* BRACKET: lifecycle notifications form a well nested word.               *)
(*   open   the stack of directories/files descended into and not ascended *)
(*   phase  "new" -> "on" (begin seen) -> "off" (end seen)                 *)
(* Decides C05.                                                            *)
(***************************************************************************)
EXTENDS Scn, Integers

BracketInit == [phase |-> "new", open |-> <<>>, down |-> {}, m |-> [x |-> 0], tops |-> {0}]

\* a session that takes up another one: by fast forward it says nothing until it
\* has descended to where the other stopped, by spawning it starts below the
\* ancestors of that place, without descending into them
RECURSIVE Route(_, _)
Route(s, n) == IF n = 0 THEN <<>> ELSE Append(Route(s, s.par[n]), n)
BracketResume(s, from, strategy) ==
  IF strategy = "fastward"
  THEN [BracketInit EXCEPT !.phase = "on", !.open = IF "ascend" \in s.silent \/ "descend" \in s.silent THEN <<>> ELSE Route(s, from),
                           !.down = SeqSet(Route(s, from))]
  ELSE [BracketInit EXCEPT !.tops = IF s.par[from] = 0 THEN {0} ELSE Above(s, from)]

\* what a walk goes through; one of directories has no business with files
Walked(s, n) == s.par[n] = 0 \/ s.dir[n] \/ s.sub \in {"universal", "files"}
Topmost(b) == IF b.open = <<>> THEN 0 ELSE b.open[Len(b.open)]
On(s, b) == b.phase = "on" \/ ("begin" \in s.silent /\ b.phase = "new")

BracketBegin(s, d, b, isroot) ==
  IF b.phase = "new" /\ isroot /\ b.open = <<>> THEN {[b EXCEPT !.phase = "on"]} ELSE {}
BracketDescend(s, d, b, n) ==
  IF ~On(s, b) \/ n = 0 \/ n \in b.down \/ n \notin d.met \/ ~Walked(s, n) THEN {}
  ELSE IF "ascend" \in s.silent THEN {[b EXCEPT !.down = @ \cup {n}]}
  ELSE IF IF b.open = <<>> THEN s.par[n] \notin b.tops ELSE s.par[n] # Topmost(b) THEN {}
  ELSE {[b EXCEPT !.open = Append(@, n), !.down = @ \cup {n}]}
BracketAscend(s, d, b, n) ==
  IF ~On(s, b) \/ n = 0 THEN {}
  ELSE IF "descend" \in s.silent THEN {b}
  ELSE IF Topmost(b) # n THEN {}
  ELSE {[b EXCEPT !.open = SubSeq(@, 1, Len(@) - 1)]}
BracketInvoke(s, d, b, n) ==
  IF ~On(s, b) THEN {}
  ELSE IF s.silent \cap {"descend", "ascend"} # {} \/ n = 0 THEN {b}
  ELSE IF Topmost(b) # n THEN {} ELSE {b}
BracketEnd(s, d, b, m) ==
  IF ~On(s, b) \/ b.open # <<>> THEN {} ELSE {[b EXCEPT !.phase = "off", !.m = m]}
BracketResult(s, d, b, ev) ==
  IF b.open # <<>> THEN {}
  ELSE IF "end" \in s.silent THEN {b}
  ELSE IF b.phase = "off" /\ (ev.noresult \/ b.m = ev.m) THEN {b} ELSE {}
=============================================================================
