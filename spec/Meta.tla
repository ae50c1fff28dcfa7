-------------------------------- MODULE Meta ---------------------------------
(***************************************************************************)
(* META: the attributes of a node handed to the client are a function of   *)
(* its position in the tree and of the options alone.  Decides C04.        *)
(***************************************************************************)
EXTENDS Scn

\* ghosts: the directories a spawned session starts below.  It does not visit
\* them, and what it finds in them it may present without a parent
MetaInit == [ghosts |-> {}]
MetaResume(s, from, strategy) == [ghosts |-> IF strategy = "spawn" THEN Above(s, from) ELSE {}]

\* ev is an invocation
MetaOk(s, d, x, ev) ==
  LET n == ev.n
  IN n = 0 \/
     /\ ev.nm = s.str[n]
     /\ ev.d = d.depth[n]
     /\ ev.dir = s.dir[n]
     /\ ev.ind = s.dir[n]
     /\ (s.dir[n] => ev.leaf = d.leaf[n])
     /\ SeqSet(ev.sc) = d.scope[n]
     /\ ev.sub = d.sub[n]
     \* details that can't be had are missing, and the node says so
     /\ ev.ne = s.vague[n]
     /\ IF s.par[n] = 0 THEN ev.pp \in {"-"}
        ELSE \/ ev.pp = d.path[s.par[n]] /\ ev.pd
             \/ s.par[n] \in x.ghosts /\ ev.pp = "-"
     /\ (s.par[n] # 0 => ev.en = s.str[n])
     /\ ev.in \in (IF s.vague[n] THEN {"-"} ELSE {"-", s.str[n]})
     /\ ev.xp = d.xp[n]
=============================================================================
