-------------------------------- MODULE Scn ---------------------------------
(***************************************************************************)
(* A SCENARIO is everything a client chooses before a navigation: a tree,  *)
(* a subscription, options, filters, and what its callback will do at each *)
(* node.  This module derives, from a scenario alone, what the promised    *)
(* behaviour is: which nodes are considered, in which order, with which    *)
(* attributes, and which of them the callback must see.  It is the shared  *)
(* vocabulary of all the state machines (Cover, Order, Bracket, Walk, ...).*)
(*                                                                         *)
(* Nodes are 1..n, node 1 is the root and par[m] < m for every other m.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt, Text

SeqSet(q) == {q[i] : i \in 1..Len(q)}

\* the ancestors of a node
RECURSIVE Above(_, _)
Above(s, n) == IF s.par[n] = 0 THEN {} ELSE {s.par[n]} \cup Above(s, s.par[n])

\* ------------------------------------------------------------- filters --
\* does filter f accept node n, whose name, scopes and parent are given?
Stem(f, nm) ==
  CASE f.type = "glob"   -> Glob(f.pat, nm)
    [] f.type = "regex"  -> Rex(f.pat, nm)
    [] f.type = "custom" -> \E i \in 1..Len(f.match) : f.match[i] = nm
    [] OTHER -> TRUE

\* extended glob: <dir>/<exclusion>|<ext specs>
GxSpec(specs, nm) ==
  LET hit(i) == Glob(specs[i].pat, nm)
      \* the first spec that decides
      decides(i) == (specs[i].excl) \/ hit(i)
      D == {i \in 1..Len(specs) : decides(i)}
  IN D # {} /\ LET i == CHOOSE k \in D : \A m \in D : k <= m
               IN IF specs[i].excl THEN ~hit(i) ELSE TRUE

\* scope bits a filter applies to; an undefined scope means every node
Scoped(fs, sc) == fs = {} \/ fs \cap sc # {} \/ "all" \in fs
Ina(f) == f.ina # "false"

\* node: [nm, sc (scope set), dir, pn (parent name; <<>> when there is none),
\*        ps (parent scopes), root]
RECURSIVE Accepts(_, _)
Accepts(f, x) ==
  CASE f.type = "none" -> TRUE
    [] f.type = "custom" -> Stem(f, x.nm) # f.neg
    [] f.type \in {"glob", "regex"} ->
         IF Scoped(SeqSet(f.scope), x.sc) THEN Stem(f, x.nm) # f.neg ELSE Ina(f)
    [] f.type = "globex" ->
         LET app == /\ "file" \in x.sc
                    /\ \/ x.root
                       \/ /\ Glob(f.dir, Lower(x.pn))
                          /\ ~(f.hasx /\ Glob(f.dirx, Lower(x.pn)))
         IN IF app THEN GxSpec(f.specs, x.nm) # f.neg ELSE Ina(f)
    [] f.type = "poly" ->
         IF x.dir THEN TRUE
         ELSE LET ff == [f.file EXCEPT !.scope = <<"file">> \o
                            SelectSeq(f.file.scope, LAMBDA z : z # "directory")]
                  df == [f.dir EXCEPT !.scope = <<"directory">> \o
                            SelectSeq(f.dir.scope, LAMBDA z : z # "file")]
              IN /\ x.root \/ Accepts(df, [nm |-> x.pn, sc |-> x.ps, dir |-> TRUE,
                                           pn |-> <<>>, ps |-> {}, root |-> FALSE])
                 /\ Accepts(ff, x)
    [] OTHER -> FALSE

\* ------------------------------------------------------------ sampling --
SampleOk(s, m) ==          \* is entry m accepted by the sampling filter?
  LET f == s.samp.filter
      covers == CASE f.type = "none" -> FALSE
                  [] Has(f.scope, "directory") -> s.dir[m]
                  [] Has(f.scope, "file") -> ~s.dir[m]
                  [] OTHER -> TRUE
  IN covers => (Stem(f, s.name[m]) # f.neg)

Take(q, k, rev) == IF k = 0 \/ k >= Len(q) THEN q
                   ELSE IF rev THEN SubSeq(q, Len(q) - k + 1, Len(q))
                   ELSE SubSeq(q, 1, k)

\* the entries of directory d (in listing order) that sampling retains
Retained(s, d) ==
  IF s.samp.type = "" /\ s.samp.filter.type = "none" THEN SeqSet(s.lst[d])
  ELSE LET ok == SelectSeq(s.lst[d], LAMBDA m : SampleOk(s, m))
           fs == SelectSeq(ok, LAMBDA m : ~s.dir[m])
           ds == SelectSeq(ok, LAMBDA m : s.dir[m])
       IN IF s.samp.type = "" THEN SeqSet(ok)
          ELSE SeqSet(Take(fs, s.samp.files, s.samp.rev))
               \cup SeqSet(Take(ds, s.samp.dirs, s.samp.rev))

\* ------------------------------------------------------------ ordering --
\* is entry a visited before its sibling b?
NameBefore(s, a, b) ==
  LET x == s.name[a]  y == s.name[b]
  IN IF s.opt.hook = "reverse" THEN Less(y, x)
     ELSE IF s.opt.cs THEN Less(x, y)
     ELSE LET lx == Lower(x)  ly == Lower(y)
          IN IF lx = ly THEN Less(x, y) ELSE Less(lx, ly)
Before(s, a, b) ==
  IF s.dir[a] # s.dir[b] THEN (s.dir[a] # s.opt.ff) ELSE NameBefore(s, a, b)
InOrder(s, S) == SortSeq(SetToSeq(S), LAMBDA a, b : Before(s, a, b))

DirsOnly(s) == s.sub \in {"directories", "dirfiles"}
Limit(s) == IF s.opt.norec THEN 1 ELSE s.opt.depth      \* 0: no limit

\* ------------------------------------------------------------- deriving --
Derive(s) ==
  LET nodes == 1..s.n
      below[m \in nodes] == {m} \cup UNION {below[k] : k \in {k \in nodes : s.par[k] = m}}
      depth[m \in nodes] == IF s.par[m] = 0 THEN 0 ELSE depth[s.par[m]] + 1
      \* s.base is the root with a separator; nothing at all when the root is "."
      prefix[m \in nodes] == IF s.par[m] = 0 THEN s.base ELSE prefix[s.par[m]] \o s.str[m] \o "/"
      path == [m \in nodes |-> IF s.par[m] = 0 THEN s.root ELSE prefix[s.par[m]] \o s.str[m]]
      kept == [m \in nodes |-> IF s.dir[m] /\ ~s.readfail[m] THEN Retained(s, m) ELSE {}]
      leaf == [m \in nodes |-> s.dir[m] /\ \A k \in kept[m] : ~s.dir[k]]
      scope == [m \in nodes |->
                 IF ~s.dir[m] THEN {"file", "leaf"}
                 ELSE {"directory"} \cup
                      (IF depth[m] = 0 THEN {"tree"} ELSE IF depth[m] = 1 THEN {"top"} ELSE {}) \cup
                      (IF leaf[m] THEN {"leaf"}
                       ELSE IF depth[m] > 1 THEN {"intermediate"} ELSE {})]
      \* nodes the traversal announces and considers
      met[m \in nodes] ==
          IF s.statfail THEN FALSE
          ELSE IF s.par[m] = 0 THEN TRUE
          ELSE /\ met[s.par[m]]
               /\ m \in kept[s.par[m]]
               /\ DirsOnly(s) => s.dir[m]
               /\ Limit(s) = 0 \/ depth[m] <= Limit(s)
      kids == [m \in nodes |-> InOrder(s, {k \in kept[m] : met[m] /\ met[k]})]
      pre[m \in nodes] ==      \* the visit order of the subtree of m
          LET RECURSIVE cat(_)
              cat(i) == IF i > Len(kids[m]) THEN <<>> ELSE pre[kids[m][i]] \o cat(i + 1)
          IN <<m>> \o cat(1)
      sel == [m \in nodes |-> met[m] /\ CASE s.sub = "universal" -> TRUE
                                          [] s.sub = "files" -> ~s.dir[m]
                                          [] OTHER -> s.dir[m]]
      view == [m \in nodes |->
                 [nm |-> s.name[m], sc |-> scope[m], dir |-> s.dir[m], root |-> s.par[m] = 0,
                  pn |-> IF s.par[m] = 0 THEN <<>> ELSE s.name[s.par[m]],
                  ps |-> IF s.par[m] = 0 THEN {} ELSE scope[s.par[m]]]]
      pass == [m \in nodes |-> /\ Accepts(s.filter, view[m])
                               \* a sampling filter also decides about the directory the walk starts from
                               /\ (s.par[m] = 0 /\ s.dir[m] /\ s.filter.type = "none") => SampleOk(s, m)]
      subp[m \in nodes] ==
          IF s.par[m] = 0 THEN ""
          ELSE LET up[k \in nodes] == IF s.par[k] = 0 THEN "" ELSE up[s.par[k]] \o "/" \o s.str[k]
               \* the ready made alternative hook gives the whole path
               IN IF s.opt.subhook \in {"both", IF s.dir[m] THEN "dirs" ELSE "files"} THEN up[m]
                  ELSE up[s.par[m]] \o (IF s.opt.nosep THEN "" ELSE "/")
      files == [m \in nodes |-> InOrder(s, {k \in kept[m] : ~s.dir[k]})]
      children == [m \in nodes |->
                     IF s.sub # "dirfiles" /\ s.child.type = "none" THEN <<>>
                     ELSE IF s.child.type = "none"
                     THEN (IF s.filter.type = "none" /\ s.samp.filter.type = "none" THEN files[m] ELSE <<>>)
                     ELSE SelectSeq(files[m], LAMBDA k : Stem(s.child, s.name[k]) # s.child.neg)]
      wakes == [m \in nodes |-> Accepts(s.hib.wake, view[m])]
      sleeps == [m \in nodes |-> Accepts(s.hib.sleep, view[m])]
      order == IF met[1] THEN pre[1] ELSE <<>>
  IN [ nodes |-> nodes, below |-> [m \in nodes |-> below[m] \ {m}], depth |-> [m \in nodes |-> depth[m]],
       path |-> path,
       has |-> [m \in nodes |-> InOrder(s, kept[m])],       \* what there is in a directory
       xp |-> [m \in nodes |-> IF s.par[m] = 0 THEN s.rootdir ELSE prefix[s.par[m]]], leaf |-> leaf, scope |-> scope,
       met |-> {m \in nodes : met[m]}, kids |-> kids, order |-> order,
       pos |-> [m \in nodes |-> IF met[m] THEN CHOOSE i \in 1..Len(order) : order[i] = m ELSE 0],
       sel |-> {m \in nodes : sel[m]}, want |-> {m \in nodes : sel[m] /\ pass[m]},
       sub |-> [m \in nodes |-> subp[m]], files |-> files, children |-> children, pass |-> pass,
       wakes |-> wakes, sleeps |-> sleeps,
       under |-> [m \in nodes |-> IF s.par[m] = 0 THEN {} ELSE below[s.par[m]] \ {s.par[m]}] ]
=============================================================================
