-------------------------------- MODULE Coll ---------------------------------
(***************************************************************************)
(* COLL: the mathematical counterparts of the ordered set, the stack and   *)
(* the iterators.  Elements are numbers; 0 is the zero value.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Set(q) == {q[i] : i \in 1..Len(q)}
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]

\* ------------------------------------------------------ the ordered set --
RECURSIVE Uniq(_)
Uniq(q) == IF q = <<>> THEN <<>>
           ELSE LET u == Uniq(SubSeq(q, 1, Len(q) - 1)) IN IF q[Len(q)] \in Set(u) THEN u ELSE Append(u, q[Len(q)])
\* the places: the order without repetitions, the anchor last
Places(order, anchor) == Append(SelectSeq(Uniq(order), LAMBDA x : x # anchor), anchor)
Items(places, mem) == SelectSeq(places, LAMBDA x : x \in mem)
CanInsert(places, anchor, mem, x) == x \in Set(places) /\ x # anchor /\ x \notin mem
RECURSIVE InsertAll(_, _, _, _)
InsertAll(places, anchor, mem, xs) ==
  IF xs = <<>> THEN [mem |-> mem, ok |-> TRUE]
  ELSE LET c == CanInsert(places, anchor, mem, Head(xs))
           r == InsertAll(places, anchor, IF c THEN mem \cup {Head(xs)} ELSE mem, Tail(xs))
       IN [mem |-> r.mem, ok |-> c /\ r.ok]
Position(places, x) == CHOOSE i \in 1..Len(places) : places[i] = x

SetStep(s, m, ev) ==
  LET places == Places(s.order, s.anchor)
      mem == m[ev.i]
      Ins == CanInsert(places, s.anchor, mem, ev.x)
      R == InsertAll(places, s.anchor, mem, ev.xs)
  IN IF ~ev.held \/ ~ev.order THEN {}
     ELSE CASE ev.op = "insert" -> IF ev.b = Ins THEN {[m EXCEPT ![ev.i] = IF Ins THEN @ \cup {ev.x} ELSE @]} ELSE {}
            [] ev.op = "all" -> IF ev.b = R.ok THEN {[m EXCEPT ![ev.i] = R.mem]} ELSE {}
            [] ev.op = "delete" -> {[m EXCEPT ![ev.i] = IF ev.x = s.anchor THEN @ ELSE @ \ {ev.x}]}
            [] ev.op = "contains" -> IF ev.b = (ev.x \in mem) THEN {m} ELSE {}
            [] ev.op = "position" -> IF ev.b = (ev.x \in Set(places)) /\ (ev.b => ev.n + 1 = Position(places, ev.x)) THEN {m} ELSE {}
            [] ev.op = "items" -> IF ev.xs = Items(places, mem) THEN {m} ELSE {}
            [] ev.op = "top" -> IF ev.x = Items(places, mem)[1] THEN {m} ELSE {}
            [] ev.op = "count" -> IF ev.n = Cardinality(mem) THEN {m} ELSE {}
            [] OTHER -> {}

\* ------------------------------------------------------------- the stack --
StackStep(s, m, ev) ==
  LET q == m[ev.i]
      Popped == IF q = <<>> THEN ~ev.b ELSE ev.b /\ ev.x = q[Len(q)]
  IN CASE ev.op = "push" -> {[m EXCEPT ![ev.i] = Append(@, ev.x)]}
       [] ev.op \in {"pop", "mustpop"} ->
            IF ev.n = 0 /\ Popped THEN {[m EXCEPT ![ev.i] = IF q = <<>> THEN q ELSE SubSeq(q, 1, Len(q) - 1)]} ELSE {}
       [] ev.op = "current" -> IF ev.n = 0 /\ Popped THEN {m} ELSE {}
       [] ev.op = "size" -> IF ev.n = Len(q) THEN {m} ELSE {}
       [] ev.op = "empty" -> IF ev.b = (q = <<>>) THEN {m} ELSE {}
       [] ev.op = "content" -> IF ev.xs = q THEN {m} ELSE {}
       [] OTHER -> {}

\* --------------------------------------------------------- the iterators --
\* q: the elements in the order of the iteration; at: 0 before the start,
\* Len(q) + 1 after the end
Way(s, q) == IF s.what \in {"reverse", "reverse-run"} THEN Rev(q) ELSE q
Elem(q, i) == IF i \in 1..Len(q) THEN q[i] ELSE 0
Min(a, b) == IF a < b THEN a ELSE b
IterStep(s, m, ev) ==
  LET nx == Min(m.at + 1, Len(m.q) + 1)
      k == Min(IF ev.n = 0 THEN 1 ELSE ev.n, Len(m.q))
  IN CASE ev.op = "start" -> IF ev.x = Elem(m.q, 1) THEN {[m EXCEPT !.at = IF m.q = <<>> THEN @ ELSE 1]} ELSE {}
       [] ev.op = "next" -> IF ev.x = Elem(m.q, nx) THEN {[m EXCEPT !.at = nx]} ELSE {}
       [] ev.op = "valid" -> IF ev.b = (m.at \in 1..Len(m.q)) THEN {m} ELSE {}
       [] ev.op = "reset" -> {[q |-> Way(s, ev.xs), at |-> 0]}
       \* while lets n elements through; the last of them is where it stops
       [] ev.op = "runall" -> IF ev.b /\ ev.xs = SubSeq(m.q, 1, k)
                              THEN {[m EXCEPT !.at = IF m.q = <<>> THEN @ ELSE IF k >= ev.n \/ ev.n = 0 THEN k ELSE Len(m.q) + 1]} ELSE {}
       [] OTHER -> {}

\* ------------------------------------------------ judging recorded events --
CollInit(s) ==
  CASE s.what = "set" -> [i \in {0, 1} |-> {s.anchor}]
    [] s.what = "stack" -> [i \in {0, 1} |-> IF i = 0 THEN <<>> ELSE s.order]
    [] OTHER -> [q |-> Way(s, s.order), at |-> 0]
CollStep(s, m, ev) ==
  IF ev.e # "op" THEN {}
  ELSE CASE s.what = "set" -> SetStep(s, m, ev)
         [] s.what = "stack" -> StackStep(s, m, ev)
         [] OTHER -> IterStep(s, m, ev)
=============================================================================
