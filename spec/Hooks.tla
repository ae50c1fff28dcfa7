------------------------------- MODULE Hooks ---------------------------------
(***************************************************************************)
(* HOOKS: what is in force for a hookable function is a pipeline of stages.*)
(* Tapping replaces the pipeline by the one function; chaining adds a      *)
(* stage that receives the result so far; restoring the default leaves the *)
(* default alone in force.  A tap that invokes what it replaces ("prev")   *)
(* comes after all of that.  A stage is [f, mode]; f = 0 is the default.   *)
(* Results are sequences of the numbers of the stages that contributed.    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Kinds == {"file", "dir", "read", "stat", "sort"}
Insts == {0, 1}
Default == <<[f |-> 0, mode |-> "default"]>>

RECURSIVE Insert(_, _)
Insert(x, q) == IF q = <<>> THEN <<x>> ELSE IF x <= Head(q) THEN <<x>> \o q ELSE <<Head(q)>> \o Insert(x, Tail(q))
RECURSIVE Asc(_)
Asc(q) == IF q = <<>> THEN <<>> ELSE Insert(Head(q), Asc(Tail(q)))
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Arrange(mode, q) ==
  CASE mode \in {"default", "asc", "prev-asc"} -> Asc(q)
    [] mode \in {"desc", "prev-desc"} -> Rev(Asc(q))
    [] mode \in {"rev", "prev-rev"} -> Rev(q)
    [] mode \in {"rot", "prev-rot"} -> IF q = <<>> THEN q ELSE Tail(q) \o <<Head(q)>>
    [] OTHER -> q
Prev == {"prev", "prev-asc", "prev-desc", "prev-rev", "prev-rot", "prev-keep"}

\* ------------------------------------------------- the operations --
Tapped(p, f, mode) == IF mode \in Prev THEN Append(p, [f |-> f, mode |-> mode]) ELSE <<[f |-> f, mode |-> mode]>>
Chained(p, f, mode) == Append(p, [f |-> f, mode |-> mode])
Put(h, i, k, p) == [h EXCEPT ![i][k] = p]
Operate(h, op) ==
  CASE op.op = "tap" -> Put(h, op.i, op.k, Tapped(h[op.i][op.k], op.f, op.mode))
    [] op.op = "chain" -> Put(h, op.i, op.k, Chained(h[op.i][op.k], op.f, op.mode))
    [] op.op = "restore" -> Put(h, op.i, op.k, Default)
    [] OTHER -> h

\* ---------------------------------------------- what a stage makes of it --
\* r: [res, err, bad] - bad: the thing asked for does not exist
Stage(k, st, r) ==
  IF k = "sort" THEN [r EXCEPT !.res = Arrange(st.mode, @)]
  ELSE CASE st.f = 0 -> IF r.bad THEN [r EXCEPT !.res = <<>>, !.err = 0] ELSE [r EXCEPT !.res = <<0>>, !.err = -1]
         [] st.mode \in {"plain", "replace"} -> [r EXCEPT !.res = <<st.f>>, !.err = -1]
         [] st.mode = "wrap" -> IF r.bad THEN [r EXCEPT !.res = <<st.f>>, !.err = 0] ELSE [r EXCEPT !.res = <<0, st.f>>, !.err = -1]
         [] st.mode \in {"append", "prev"} -> [r EXCEPT !.res = Append(@, st.f)]
         [] st.mode = "fail" -> [r EXCEPT !.res = <<>>, !.err = st.f]
         [] OTHER -> r
RECURSIVE Run(_, _, _)
Run(k, p, r) == IF p = <<>> THEN r ELSE Run(k, Tail(p), Stage(k, Head(p), r))
Fresh(arg, bad) == [res |-> arg, err |-> -1, bad |-> bad]
Outcome(h, i, k, arg, bad) == Run(k, h[i][k], Fresh(arg, bad))

\* --------------------------------------------------------- invocations --
\* an invocation in progress: stages left, result so far, known: whether it is
Idle == [k |-> "none", i |-> 0, left |-> <<>>, r |-> Fresh(<<>>, FALSE), known |-> TRUE]
\* the default makes no call of its own
RECURSIVE Silent(_)
Silent(v) == IF v.left # <<>> /\ Head(v.left).f = 0
             THEN Silent([v EXCEPT !.left = Tail(@), !.r = Stage(v.k, Head(v.left), @)]) ELSE v
Invoke(h, i, k, arg, bad, known) == Silent([k |-> k, i |-> i, left |-> h[i][k], r |-> Fresh(arg, bad), known |-> known])
\* the first stage is given the arguments and no result
Given(v, h, ev) ==
  IF v.k = "sort" THEN ~v.known \/ ev.got = v.r.res
  ELSE IF Len(v.left) = Len(h[v.i][v.k]) THEN ev.got = <<>> /\ ev.goterr = -1
  ELSE ev.got = v.r.res /\ ev.goterr = v.r.err
Call(h, v, ev) ==
  IF v.left # <<>> /\ Head(v.left).f = ev.f /\ v.k = ev.k /\ v.i = ev.i /\ ev.argok /\ Given(v, h, ev)
  THEN {[v EXCEPT !.left = Tail(@), !.known = TRUE,
                  !.r = Stage(v.k, Head(v.left), IF v.known THEN @ ELSE [@ EXCEPT !.res = ev.got])]}
  ELSE {}

\* ------------------------------------------------- a navigation with hooks --
\* s.par[n - 1], s.dir[n - 1]: entries 2.. ; entry 1 is the root
Count(s) == Len(s.par) + 1
IsDir(s, n) == n = 1 \/ (n <= Count(s) /\ s.dir[n - 1])
Own(s, n) == Asc(SelectSeq([j \in 1..Len(s.par) |-> j + 1], LAMBDA j : s.par[j - 1] = n))
RECURSIVE Entries(_, _, _)
Entries(s, n, toks) == IF toks = <<>> THEN <<>>
  ELSE (IF Head(toks) = 0 THEN Own(s, n) ELSE <<Head(toks)>>) \o Entries(s, n, Tail(toks))
Sorted(h, i, q) == Outcome(h, i, "sort", q, FALSE).res
Listing(s, h, i, n) ==
  LET all == Entries(s, n, Outcome(h, i, "read", <<>>, FALSE).res)
      D(e) == IsDir(s, e)
      F(e) == ~IsDir(s, e)
  IN Sorted(h, i, SelectSeq(all, D)) \o Sorted(h, i, SelectSeq(all, F))
RECURSIVE Visits(_, _, _, _, _), Each(_, _, _, _, _)
Each(s, h, i, n, q) == IF q = <<>> THEN <<>> ELSE Visits(s, h, i, Head(q), n) \o Each(s, h, i, n, Tail(q))
Visits(s, h, i, n, p) ==
  <<[n |-> n, p |-> p, dir |-> IsDir(s, n)]>> \o (IF IsDir(s, n) THEN Each(s, h, i, n, Listing(s, h, i, n)) ELSE <<>>)
VisitOk(h, i, want, ev) ==
  /\ ev.n = want.n /\ ev.p = want.p /\ ev.dir = want.dir
  /\ ev.sub = Outcome(h, i, IF want.dir THEN "dir" ELSE "file", <<>>, FALSE).res
  /\ (want.n = 1) => ev.qs = Outcome(h, i, "stat", <<>>, FALSE).res

\* ------------------------------------------------ judging recorded events --
\* nav: -1 no navigation, else the options it is made with; want: visits to come
HooksInit(s) == [h |-> [i \in Insts |-> [k \in Kinds |-> Default]], v |-> Idle, asked |-> FALSE, nav |-> -1, want |-> <<>>]
Quiet(m) == m.v.left = <<>>
HooksStep(s, m, ev) ==
  CASE ev.e = "op" ->
         IF m.asked \/ m.nav # -1 THEN {}
         ELSE CASE ev.op = "invoke" -> {[m EXCEPT !.asked = TRUE, !.v = Invoke(m.h, ev.i, ev.k, ev.arg, ev.arg = <<0>>, TRUE)]}
                [] ev.op = "nav" -> {[m EXCEPT !.nav = ev.i, !.want = Visits(s, m.h, ev.i, 1, 0)]}
                [] OTHER -> {[m EXCEPT !.h = Operate(@, ev)]}
    [] ev.e = "call" ->
         IF m.asked THEN {[m EXCEPT !.v = v] : v \in Call(m.h, m.v, ev)}
         ELSE IF m.nav = -1 THEN {}
         ELSE LET v0 == IF Quiet(m) THEN Invoke(m.h, m.nav, ev.k, <<>>, FALSE, ev.k # "sort") ELSE m.v
              IN {[m EXCEPT !.v = v] : v \in Call(m.h, v0, ev)}
    [] ev.e = "returned" ->
         IF m.asked /\ m.v.left = <<>> /\ ev.res = m.v.r.res /\ ev.err = m.v.r.err THEN {[m EXCEPT !.asked = FALSE, !.v = Idle]} ELSE {}
    [] ev.e = "visit" ->
         IF m.nav # -1 /\ Quiet(m) /\ m.want # <<>> /\ VisitOk(m.h, m.nav, Head(m.want), ev) THEN {[m EXCEPT !.want = Tail(@)]} ELSE {}
    [] ev.e = "navigated" ->
         IF m.nav # -1 /\ Quiet(m) /\ m.want = <<>> /\ ev.err = -1 THEN {[m EXCEPT !.nav = -1, !.v = Idle]} ELSE {}
    [] OTHER -> {}
=============================================================================
