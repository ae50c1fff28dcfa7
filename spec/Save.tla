-------------------------------- MODULE Save ---------------------------------
(***************************************************************************)
(* SAVE: what happens when the client panics.  The navigation stops, a     *)
(* session file appears (unless saving fails or a custom handler decides   *)
(* otherwise), the reported error names it, and the file holds exactly the *)
(* session: root, current node, kind, depth, subscription, counts so far   *)
(* and the options in force.                                               *)
(*   c       the coverage machine (deliveries, where it stopped)           *)
(*   fi, di  callbacks made for files / directories in this session        *)
(*   resc    how often the custom handler was consulted                    *)
(*   rep     the result has been reported; saves  session files written    *)
(* Decides C13.                                                            *)
(***************************************************************************)
EXTENDS Cover

SaveInit(s, d, from, nav, saves) ==
  [c |-> CoverInit(s, d, from), fi |-> 0, di |-> 0, resc |-> 0, rep |-> FALSE, nav |-> nav, saves |-> saves]

Custom(s) == s.panic \in {"fail", "custom", "save"}
Panicked(k) == k.c.ctl = "panic"
\* is a session file written for this panic?
Writes(s) == s.panic \in {"", "save"}

SaveDeliver(s, d, k, n, act) ==
  IF k.rep THEN {}
  ELSE {[k EXCEPT !.c = x, !.fi = @ + (IF s.dir[n] THEN 0 ELSE 1), !.di = @ + (IF s.dir[n] THEN 1 ELSE 0)]
          : x \in CoverDeliver(s, d, k.c, n, act)}
SaveRescue(s, k, data) ==
  IF Panicked(k) /\ Custom(s) /\ k.resc = 0 THEN {[k EXCEPT !.resc = 1]} ELSE {}
SaveResult(s, k, ev) ==
  LET want == CASE ~Panicked(k) -> k.c.why
                [] s.panic \in {"fail", "badfs"} -> "notsaved"
                [] OTHER -> "saved"
  IN IF /\ ~k.rep
        /\ ev.err = want
        /\ Panicked(k) => k.resc = (IF Custom(s) THEN 1 ELSE 0)
        /\ want = "saved" => /\ ev.named
                             /\ ev.to # ""
                             /\ s.panic = "custom" => ev.to = "elsewhere.json"
        /\ want # "saved" => ev.to = "" /\ ~ev.named
     THEN {[k EXCEPT !.rep = TRUE, !.saves = @ + (IF Panicked(k) /\ Writes(s) THEN 1 ELSE 0)]}
     ELSE {}

SubCode(sub) == CASE sub = "files" -> 1 [] sub = "directories" -> 2 [] sub = "dirfiles" -> 3 [] OTHER -> 4

\* ------------------------------------------------------ options in force --
\* the two parts of a poly filter may be recorded with the scope they have in
\* effect: files only, directories only
Wide(S) == IF "all" \in S THEN {"tree", "top", "leaf", "intermediate", "file", "directory"} ELSE S
InEffect(f, kind, other) == [f EXCEPT !.scope = SetToSeq((Wide(SeqSet(@)) \cup {kind}) \ {other})]
RECURSIVE SameFilter(_, _)
SameFilter(f, j) ==
  IF f.type \in {"none", "custom"} THEN j.type = "none"
  ELSE /\ j.type = f.type
       /\ j.txt = f.txt
       /\ SeqSet(j.scope) = SeqSet(f.scope) \/ (f.type = "globex" /\ SeqSet(j.scope) = {"file"})
       /\ j.neg = f.neg
       /\ j.ina = f.ina
       /\ f.type = "poly" =>
            /\ SameFilter(f.file, j.file) \/ SameFilter(InEffect(f.file, "file", "directory"), j.file)
            /\ SameFilter(f.dir, j.dir) \/ SameFilter(InEffect(f.dir, "directory", "file"), j.dir)
SameChild(f, j) == IF f.type = "none" THEN j.type = "none"
                   ELSE j.type = f.type /\ j.txt = f.txt /\ j.neg = f.neg
SameOptions(s, o) ==
  /\ o.norec = s.opt.norec /\ (s.opt.norec \/ o.depth = s.opt.depth)
  /\ o.cs = s.opt.cs /\ o.ff = s.opt.ff
  /\ o.keep = ~s.opt.nosep
  /\ s.opt.now # 0 => o.now = s.opt.now
  /\ SameFilter(s.filter, o.node)
  /\ SameChild(s.child, o.child)
  /\ SameFilter(s.hib.wake, o.wake) /\ SameFilter(s.hib.sleep, o.sleep)
  /\ o.iw = s.hib.inclwake /\ o.is = s.hib.inclsleep
  /\ o.stype = s.samp.type
  /\ s.samp.type # "" => o.sfiles = s.samp.files /\ o.sdirs = s.samp.dirs /\ o.rev = s.samp.rev

SaveSaved(s, d, k, ev) ==
  IF s.panic = "custom" /\ ~ev.ok /\ k.rep THEN {k}      \* the handler's file is its own matter
  ELSE
  IF /\ k.rep /\ Panicked(k) /\ Writes(s)
     /\ ev.ok /\ ev.under /\ ev.lost = 0
     /\ ev.tree = s.root
     /\ ev.n = k.c.stop /\ ev.dir = s.dir[k.c.stop] /\ ev.d = d.depth[k.c.stop]
     /\ ev.sub = SubCode(s.sub)
     /\ ev.trel = s.relative /\ ~ev.rrel
     \* the counts of a resumed session accumulate; only the first is exact
     /\ k.nav > 1 \/ (ev.fi = k.fi /\ ev.di = k.di)
     /\ SameOptions(s, ev.opts)
  THEN {k} ELSE {}
SaveFiles(k, n) == IF k.rep /\ n = k.saves THEN {k} ELSE {}
\* a resumed session
SaveAgain(s, d, k, from) == IF k.rep THEN {SaveInit(s, d, from, k.nav + 1, k.saves)} ELSE {}
=============================================================================
