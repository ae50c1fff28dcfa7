--------------------------------- MODULE Bus ---------------------------------
(***************************************************************************)
(* BUS: topics, and handlers registered under a key with a matcher.  Who   *)
(* is subscribed to a topic is not stored: it follows from the two.  An    *)
(* emission is a frame on a stack, since a handler may emit as well.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* topics, as sequences of their parts
Parts == ("a" :> <<"a">>) @@ ("b" :> <<"b">>) @@ ("a.x" :> <<"a", "x">>) @@ ("a.y" :> <<"a", "y">>) @@ ("b.x" :> <<"b", "x">>)
      @@ ("b.a" :> <<"b", "a">>) @@ ("a.b.x" :> <<"a", "b", "x">>)
      @@ ("topic:init.plugins" :> <<"topic:init", "plugins">>) @@ ("topic:intercept.navigator" :> <<"topic:intercept", "navigator">>)
      @@ ("topic:navigation.complete" :> <<"topic:navigation", "complete">>)
      @@ ("topic:options.announce" :> <<"topic:options", "announce">>) @@ ("topic:options.before" :> <<"topic:options", "before">>)
      @@ ("topic:options.complete" :> <<"topic:options", "complete">>)
Services == {"topic:init.plugins", "topic:intercept.navigator", "topic:navigation.complete", "topic:options.announce",
             "topic:options.before", "topic:options.complete"}
Plain(t) == t \notin Services
Last(q) == q[Len(q)]
Some(q, x) == \E i \in 1..Len(q) : q[i] = x
\* the matchers that are used, by what they mean
Matches(mt, t) ==
  LET p == Parts[t]
  IN CASE mt \in {"", ".*"} -> TRUE
       [] mt = "^a" -> p[1] = "a"
       [] mt = "^b" -> p[1] = "b"
       [] mt = "x$" -> Last(p) = "x"
       [] mt = "^a\\.x$" -> t = "a.x"
       [] mt = "a\\.x" -> t = "a.x"
       [] mt = "^a$" -> t = "a"
       [] mt = "\\." -> Len(p) > 1
       [] mt = "^[ab]$" -> t \in {"a", "b"}
       [] mt = "y|^b$" -> t \in {"a.y", "b"}
       [] mt = "^topic:options\\." -> p[1] = "topic:options"
       [] mt = "complete$" -> Last(p) = "complete"
       [] mt \in {"[", "(", "*"} -> FALSE               \* not a pattern at all
       [] OTHER -> FALSE

\* --------------------------------------------------------- the registry --
\* regs: key -> [m, v]; v tells registrations under the same key apart
Empty == [topics |-> {}, regs |-> <<>>]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Set(q) == {q[i] : i \in 1..Len(q)}
Operate(b, op) ==
  CASE op.op = "regtopics" -> [b EXCEPT !.topics = @ \cup Set(op.ts)]
    [] op.op = "deregtopics" -> [b EXCEPT !.topics = @ \ Set(op.ts)]
    [] op.op = "reghandler" -> [b EXCEPT !.regs = (op.k :> [m |-> op.m, v |-> op.v]) @@ @]
    [] op.op = "dereghandler" -> [b EXCEPT !.regs = Without(@, op.k)]
    [] OTHER -> b
Subscribers(b, t) == IF t \in b.topics THEN {k \in DOMAIN b.regs : Matches(b.regs[k].m, t)} ELSE {}
Subscriptions(b, k) == IF k \in DOMAIN b.regs THEN {t \in b.topics : Matches(b.regs[k].m, t)} ELSE {}

\* ---------------------------------------------------------- an emission --
\* due: registrations that must still get the message; may: ones that may or
\* may not, because they come or go while the emission is in progress
NoMsg == [id |-> "", tx |-> "", src |-> "", at |-> ""]
Frame(b, op, amb) ==
  LET t == op.ts[1]
  IN [op |-> op, due |-> {[k |-> k, v |-> b.regs[k].v] : k \in Subscribers(b, t)}, may |-> {}, msg |-> NoMsg,
      known |-> t \in b.topics,
      tx |-> IF op.op = "emit" THEN (IF op.tx # "" THEN op.tx ELSE amb.tx) ELSE op.tx,
      src |-> IF op.op = "emit" THEN (IF op.src # "" THEN op.src ELSE amb.src) ELSE op.src,
      amb |-> amb]
Soften(fr, b, op) ==
  LET gone == {d \in fr.due : op.op \in {"reghandler", "dereghandler"} /\ d.k = op.k}
              \cup (IF op.op = "deregtopics" /\ fr.op.ts[1] \in Set(op.ts) THEN fr.due ELSE {})
      new == IF op.op = "reghandler" /\ Matches(op.m, fr.op.ts[1]) THEN {[k |-> op.k, v |-> op.v]} ELSE {}
  IN [fr EXCEPT !.due = @ \ gone, !.may = @ \cup gone \cup new]
SoftenAll(st, b, op) == [j \in 1..Len(st) |-> Soften(st[j], b, op)]
\* the context in which a handler of the frame runs
Ambient(fr) == IF fr.op.op = "emit" THEN [tx |-> fr.msg.tx, src |-> fr.src] ELSE fr.amb
Got(fr, seen, ev) ==
  LET who == [k |-> ev.k, v |-> ev.v]
      msg == [id |-> ev.id, tx |-> ev.tx, src |-> ev.src, at |-> ev.at]
      first == fr.msg = NoMsg
      ok == /\ fr.known /\ who \in fr.due \cup fr.may
            /\ ev.topic = fr.op.ts[1] /\ ev.d = fr.op.d /\ ev.src = fr.src
            /\ (fr.tx # "" => ev.tx = fr.tx) /\ ev.tx # "" /\ ev.id # ""
            /\ (fr.op.op = "emitopts" /\ fr.op.id # "" => ev.id = fr.op.id)
            /\ ev.at = (IF fr.op.op = "emitopts" /\ fr.op.at THEN "given" ELSE "now")
            \* everyone is given the same message, and its identity is not used again
            /\ (~first => msg = fr.msg)
            /\ (first /\ (fr.op.op = "emit" \/ fr.op.id = "") => ev.id \notin seen)
            /\ (first /\ fr.tx = "" => ev.tx \notin seen)
            /\ ev.ctxtx = (IF fr.op.op = "emit" THEN ev.tx ELSE fr.amb.tx)
            /\ ev.ctxsrc = (IF fr.op.op = "emit" THEN fr.src ELSE fr.amb.src)
  IN IF ok THEN {[fr EXCEPT !.due = @ \ {who}, !.may = @ \ {who}, !.msg = msg]} ELSE {}
Over(fr, r) == IF fr.known THEN fr.due = {} /\ r = "ok" ELSE r = "notfound"

\* ------------------------------------------------ judging recorded events --
NoAmb == [tx |-> "", src |-> ""]
BusInit(s) == [b |-> IF s.services THEN [Empty EXCEPT !.topics = Services] ELSE Empty, st |-> <<>>, seen |-> {}]
Top(m) == m.st[Len(m.st)]
Pop(st) == SubSeq(st, 1, Len(st) - 1)
BusStep(s, m, ev) ==
  CASE ev.e = "op" ->
         IF ev.op \in {"emit", "emitopts"}
         THEN {[m EXCEPT !.st = Append(@, Frame(m.b, ev, IF @ = <<>> THEN NoAmb ELSE Ambient(Top(m))))]}
         ELSE {[m EXCEPT !.b = Operate(@, ev), !.st = SoftenAll(@, m.b, ev)]}
    [] ev.e = "got" ->
         IF m.st = <<>> THEN {}
         ELSE {[m EXCEPT !.st = Append(Pop(@), fr), !.seen = @ \cup {fr.msg.id, fr.msg.tx}] : fr \in Got(Top(m), m.seen, ev)}
    [] ev.e = "emitted" -> IF m.st # <<>> /\ Over(Top(m), ev.r) THEN {[m EXCEPT !.st = Pop(@)]} ELSE {}
    [] ev.e = "lists" -> IF Set(ev.topics) = m.b.topics /\ Len(ev.topics) = Cardinality(m.b.topics)
                            /\ Set(ev.keys) = DOMAIN m.b.regs /\ Len(ev.keys) = Cardinality(DOMAIN m.b.regs) THEN {m} ELSE {}
    [] ev.e = "topic" -> LET w == Subscribers(m.b, ev.topic)
                         IN IF Set(ev.keys) = w /\ Len(ev.keys) = Cardinality(w) THEN {m} ELSE {}
    [] ev.e = "handler" -> LET w == Subscriptions(m.b, ev.k)
                           IN IF Set(ev.topics) = w /\ Len(ev.topics) = Cardinality(w) THEN {m} ELSE {}
    [] OTHER -> {}
=============================================================================
