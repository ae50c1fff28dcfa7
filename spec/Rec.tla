-------------------------------- MODULE Rec ----------------------------------
(* Recorded traces: one JSON object {sc: scenario, ev: events} per line.    *)
(* What is read and derived once is kept in TLC's registers.                *)
EXTENDS Scn, Json, IOUtils
ASSUME TLCSet(9, ndJsonDeserialize(IOEnv.TRACE))
Raw == TLCGet(9)
ASSUME TLCSet(8, [t \in 1..Len(Raw) |-> [Raw[t].sc EXCEPT !.silent = SeqSet(@)]])
S == TLCGet(8)
ASSUME TLCSet(7, [t \in 1..Len(Raw) |-> Derive(S[t])])
D == TLCGet(7)
Ev(t) == Raw[t].ev
\* the sessions that take up a navigation may be given options of their own
ASSUME TLCSet(6, [t \in 1..Len(Raw) |->
  IF "alts" \notin DOMAIN Raw[t] THEN <<>>
  ELSE [i \in 1..Len(Raw[t].alts) |->
          LET s == [Raw[t].alts[i] EXCEPT !.silent = SeqSet(@)] IN [s |-> s, d |-> Derive(s)]]])
Alt == TLCGet(6)
\* which session event i belongs to
Session(t, i) == Cardinality({j \in 1..i : Ev(t)[j].e = "resume"})
RequestAt(t, i) == LET n == IF Alt[t] = <<>> THEN 0 ELSE Session(t, i)
                  IN IF n = 0 THEN [s |-> S[t], d |-> D[t]] ELSE Alt[t][n]
Diag == "DIAG" \in DOMAIN IOEnv
=============================================================================
