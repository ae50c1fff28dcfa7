-------------------------------- MODULE Chain --------------------------------
(***************************************************************************)
(* CHAIN: the links a node passes through, one per role, in the order that *)
(* has been arranged, the client last.  1 is the role of the client.       *)
(***************************************************************************)
EXTENDS Coll
Anchor == 1

\* links: role -> link; client: who is called in the end
\* ------------------------------------------------- the operations --
Ordered(c) == Places(c.order, Anchor)
Present(c) == {r \in DOMAIN c.links : r \in Set(Ordered(c))} \cup {Anchor}
Line(c) == Items(Ordered(c), Present(c))
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Sealed(c) == Line(c)[1] \in c.seal
Decorate(c, role, lnk) == [c EXCEPT !.links = (role :> lnk) @@ @]
Unwind(c, role) == IF role = Anchor THEN c ELSE [c EXCEPT !.links = Without(@, role)]
Swap(c, l) == [c EXCEPT !.client = l]
\* the path of one node: the links still to be passed, when it set out
Path(c) == SubSeq(Line(c), 1, Len(Line(c)) - 1)

\* ------------------------------------------------ judging recorded events --
\* at: "idle", "decorate" (asked), "walk" (a node is on its way); left: roles
\* it has still to pass; out: what the invocation will answer
ChainInit(s) == [c |-> [order |-> s.order, links |-> <<>>, client |-> 0, seal |-> s.seal],
                 at |-> "idle", left |-> <<>>, say |-> <<>>, out |-> "", ticks |-> 0, ask |-> [role |-> 0, l |-> 0]]
Say(say, l) == LET k == CHOOSE i \in 1..Len(say) : say[i][1] = l
               IN IF \E i \in 1..Len(say) : say[i][1] = l THEN say[k][2] ELSE "pass"
ChainStep(s, m, ev) ==
  CASE ev.e = "op" /\ m.at = "idle" ->
         (CASE ev.op = "decorate" -> {[m EXCEPT !.at = "decorate", !.ask = [role |-> ev.role, l |-> ev.l]]}
            [] ev.op = "unwind" -> {[m EXCEPT !.c = Unwind(@, ev.role)]}
            [] ev.op = "swap" -> {[m EXCEPT !.c = Swap(@, ev.l)]}
            [] OTHER -> {[m EXCEPT !.at = "walk", !.left = Path(m.c), !.say = ev.say, !.out = "", !.ticks = 0]})
    [] ev.e = "done" /\ m.at = "decorate" ->
         IF ev.r = (IF Sealed(m.c) THEN "sealed" ELSE "ok")
         THEN {[m EXCEPT !.at = "idle", !.c = IF ev.r = "ok" THEN Decorate(@, m.ask.role, m.ask.l) ELSE @]} ELSE {}
    [] ev.e = "link" /\ m.at = "walk" /\ m.out = "" ->
         IF m.left # <<>> /\ ev.argok /\ ev.role = Head(m.left) /\ ev.l = m.c.links[ev.role]
         THEN LET a == Say(m.say, ev.l)
              IN {[m EXCEPT !.left = Tail(@), !.out = CASE a = "stop" -> "ok" [] a \in {"fail", "both"} -> "link" [] OTHER -> ""]}
         ELSE {}
    \* a link that takes itself out of the chain, as it passes the node on
    [] ev.e = "unwound" /\ m.at = "walk" -> {[m EXCEPT !.c = Unwind(@, ev.role)]}
    [] ev.e = "client" /\ m.at = "walk" /\ m.out = "" ->
         IF m.left = <<>> /\ ev.argok /\ ev.l = m.c.client
         THEN {[m EXCEPT !.out = IF Say(m.say, ev.l) = "fail" THEN "link" ELSE "ok", !.ticks = 1]} ELSE {}
    [] ev.e = "invoked" /\ m.at = "walk" ->
         IF m.out = ev.r /\ m.ticks = ev.ticks THEN {[m EXCEPT !.at = "idle"]} ELSE {}
    [] OTHER -> {}
=============================================================================
