------------------------------- MODULE Cover ---------------------------------
(***************************************************************************)
(* COVERAGE: which nodes the callback must see, exactly once, and how      *)
(* client answers, handler answers and failures change that -- without     *)
(* saying anything about the order of visits.  The state of the machine:   *)
(*   done   nodes delivered so far                                         *)
(*   gone   nodes that must not be delivered any more                      *)
(*   loose  nodes about which nothing is promised (e.g. the rest of the    *)
(*          directory in which a file's callback asked to skip)            *)
(*   ctl    "" while running, otherwise why no delivery may follow         *)
(*   why    what the navigation has to report                              *)
(*   waived directories whose callback asked to skip them                  *)
(*   asked  directories about which the skip handler was consulted         *)
(* It decides C01, C03, C06, C07, C08, C09, C11, C12 and the delivery part *)
(* of C13, C14, C16 and C22.                                               *)
(***************************************************************************)
EXTENDS Scn, Integers

\* from: the first node of a resumed session (0: a fresh one)
CoverInit(s, d, from) ==
  [done |-> {}, gone |-> IF from = 0 THEN {} ELSE {m \in d.nodes : d.pos[m] < d.pos[from]},
   loose |-> {}, waived |-> {}, ctl |-> "", why |-> "nil", asked |-> {}, stop |-> 0, fin |-> FALSE, from |-> from]

Seen(c) == c.done
\* --------------------------------------------------------- a delivery ----
CoverDeliver(s, d, c, n, act) ==
  IF n \notin d.want \/ n \in c.done \/ n \in c.gone \/ c.ctl # "" \/ c.fin THEN {}
  ELSE LET c1 == [c EXCEPT !.done = @ \cup {n}]
       IN { CASE act \in {"err", "werr"} -> [c1 EXCEPT !.ctl = "err", !.why = "client", !.stop = n]
              [] act = "skipall" -> [c1 EXCEPT !.ctl = "skipall", !.stop = n]
              [] act \in {"panic", "panicerr"} ->
                   [c1 EXCEPT !.ctl = "panic", !.stop = n,
                              !.why = CASE s.panic \in {"fail", "badfs"} -> "notsaved" [] OTHER -> "saved"]
              [] act = "skipdir" /\ s.dir[n] -> [c1 EXCEPT !.gone = @ \cup d.below[n], !.waived = @ \cup {n}]
              [] act = "skipdir" /\ ~s.dir[n] -> [c1 EXCEPT !.loose = @ \cup d.under[n]]
              [] OTHER -> c1 }

\* -------------------------------------------- the skip handler is asked --
CoverAsk(s, d, c, n, err) ==
  IF ~s.skipon \/ n \notin d.met \/ n \in c.gone \/ n \in c.asked \/ c.ctl # "" \/ c.fin
     \/ err # (IF s.readfail[n] /\ s.dir[n] THEN "read" ELSE "nil")
  THEN {}
  ELSE LET c1 == [c EXCEPT !.asked = @ \cup {n}]
           w == IF s.anserr[n] THEN "skiperr" ELSE "nil"
       IN { CASE s.ans[n] = "all" -> [c1 EXCEPT !.ctl = "all", !.why = w, !.stop = n]
              [] s.ans[n] = "dir" -> [c1 EXCEPT !.gone = @ \cup (d.below[n] \ c.done),
                                                !.loose = @ \cup d.under[n]]
              [] OTHER -> c1 }

\* the handler is shown what there is in the directory: all of it, its directories
\* and its files; as they are visited, except that files which are not visited need
\* not be in any order
Shown(s, d, n, ev) ==
  LET fs == SelectSeq(d.has[n], LAMBDA k : ~s.dir[k])
      ds == SelectSeq(d.has[n], LAMBDA k : s.dir[k])
      same(q, r) == Len(q) = Len(r) /\ SeqSet(q) = SeqSet(r)
  IN /\ ev.cd = ds
     /\ IF DirsOnly(s) THEN same(ev.cf, fs) /\ same(ev.ct, d.has[n]) ELSE ev.cf = fs /\ ev.ct = d.has[n]

\* ------------------------------------------------- the root is unusable --
CoverFault(s, d, c, err) ==
  IF ~s.statfail \/ s.fault = "" \/ err # "stat" \/ c.ctl # "" THEN {}
  ELSE {[c EXCEPT !.ctl = "fault", !.why = IF s.fault = "nil" THEN "nil" ELSE "faulterr"]}

\* ------------------------------------------------------------ the result --
Settled(c) == c.done \cup c.gone \cup c.loose
CoverComplete(s, d, c) ==
  c.ctl = "" => d.want \subseteq Settled(c)

\* directories whose listing failed must have been brought to the skip handler
CoverAsked(s, d, c) ==
  (s.skipon /\ c.ctl = "") =>
     {m \in d.met : s.dir[m] /\ s.readfail[m]} \subseteq (c.asked \cup c.gone \cup c.loose \cup c.waived)

CoverWhy(s, c) ==
  IF s.statfail /\ c.ctl = "" THEN (IF s.fault = "" THEN "stat" ELSE "unasked") ELSE c.why

Ended(c) == [c EXCEPT !.fin = TRUE]

\* --------------------------------------------------------------- metrics --
FilesIn(s, S) == {m \in S : ~s.dir[m]}
DirsIn(s, S) == {m \in S : s.dir[m]}

\* nodes that were put to the filter: all selected ones, up to where the
\* walk was stopped (in visit order); a range when some nodes are loose
Considered(s, d, c) ==
  {m \in d.sel : /\ m \notin c.gone
                 /\ c.stop # 0 => d.pos[m] <= d.pos[c.stop]}
Rejected(s, d, c) == Considered(s, d, c) \ d.want

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})

InvokedOk(s, d, c, m) ==
  /\ m.fi = Cardinality(FilesIn(s, c.done))
  /\ m.di = Cardinality(DirsIn(s, c.done))
FilteredOk(s, d, c, m) ==
  LET r == Rejected(s, d, c)
      hi(S) == Cardinality(S)
      lo(S) == Cardinality(S \ c.loose)
      act == s.filter.type # "none"
  IN IF ~act THEN m.fo = 0 /\ m.do = 0
     ELSE /\ lo(FilesIn(s, r)) <= m.fo /\ m.fo <= hi(FilesIn(s, r))
          /\ lo(DirsIn(s, r)) <= m.do /\ m.do <= hi(DirsIn(s, r))
ChildOk(s, d, c, m) ==
  LET ds == DirsIn(s, c.done)
      found == SumOver([x \in ds |-> Len(d.children[x])], ds)
      all == SumOver([x \in ds |-> Len(d.files[x])], ds)
  IN /\ m.cf = found
     /\ m.co = IF s.child.type = "none" THEN 0 ELSE all - found
CoverMetrics(s, d, c, m) ==
  s.samp.filter.type # "none" \/
  (InvokedOk(s, d, c, m) /\ FilteredOk(s, d, c, m) /\ ChildOk(s, d, c, m))
=============================================================================
