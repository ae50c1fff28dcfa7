------------------------------- MODULE Units ---------------------------------
(* Generic trace validation: rows {sc, ev}; a machine given by operators.    *)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC
ASSUME TLCSet(9, ndJsonDeserialize(IOEnv.TRACE))
Raw == TLCGet(9)
Diag == "DIAG" \in DOMAIN IOEnv
SeqSet(q) == {q[i] : i \in 1..Len(q)}
VARIABLES t, l, m
UInit(I(_)) == t \in 1..Len(Raw) /\ l = 0 /\ m = I(Raw[t].sc)
UNext(S(_, _, _), Done(_, _)) ==
  /\ l < Len(Raw[t].ev)
  /\ m' \in S(Raw[t].sc, m, Raw[t].ev[l + 1])
  /\ l' = l + 1 /\ t' = t
  /\ (l' = Len(Raw[t].ev) /\ Done(Raw[t].sc, m')) => PrintT(<<"ACC", t>>)
  /\ Diag => PrintT(<<"AT", t, l'>>)
=============================================================================
