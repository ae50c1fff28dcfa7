-------------------------------- MODULE Same ---------------------------------
(***************************************************************************)
(* SAME: several navigations of one request, through different entry       *)
(* points or repeated after other navigations, agree: the same nodes (in   *)
(* the same sequence when sequential), the same metrics and outcome.       *)
(*   k       the coverage machine of the navigation in progress            *)
(*   seq     what it has delivered; conc  whether it is a concurrent one   *)
(*   ref     the outcome of the first navigation (<<>> before)             *)
(*   sref    the sequence of the first sequential one                      *)
(* Decides C22.                                                            *)
(***************************************************************************)
EXTENDS Cover, Request

SameInit(s, d) == [c |-> CoverInit(s, d, 0), seq |-> <<>>, conc |-> FALSE, ref |-> <<>>, sref |-> <<>>, over |-> FALSE]
SameDeliver(s, d, k, n, act) ==
  IF n = 0 THEN {}
  ELSE {[k EXCEPT !.c = x, !.seq = Append(@, n)] : x \in CoverDeliver(s, d, k.c, n, act)}
SameResult(s, d, k, ev) ==
  LET out == [set |-> SeqSet(k.seq), m |-> ev.m, err |-> ev.err]
  IN IF /\ ~k.over
        /\ ChoicesOk(ev)
        /\ CoverComplete(s, d, k.c)
        /\ ev.err = CoverWhy(s, k.c)
        /\ ev.err = "nil" => ev.m.fi = Cardinality(FilesIn(s, k.c.done)) /\ ev.m.di = Cardinality(DirsIn(s, k.c.done))
        /\ k.ref # <<>> => k.ref[1] = out
        /\ (~k.conc /\ k.sref # <<>>) => k.sref[1] = k.seq
     THEN {[k EXCEPT !.over = TRUE, !.ref = IF @ = <<>> THEN <<out>> ELSE @,
                     !.sref = IF k.conc \/ @ # <<>> THEN @ ELSE <<k.seq>>]}
     ELSE {}
SameVia(k, conc) == {[k EXCEPT !.conc = conc]}
SameAgain(s, d, k) ==
  IF k.over THEN {[k EXCEPT !.over = FALSE, !.c = CoverInit(s, d, 0), !.seq = <<>>, !.conc = FALSE]} ELSE {}
=============================================================================
